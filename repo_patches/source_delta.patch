From 8aec61272db57e1fa8df961a57236e4d39b2108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:38 +0000
Subject: [PATCH 01/96] fix: a collection that refuses an identifier stays
 unchanged

---
 src/core/group/Identifiable.h   |  1 +
 src/core/group/Identifiable.hpp | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 4e44dee..dfc26c2 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -87,6 +87,7 @@ private:
     Id lastId_;
     std::map<Id, std::size_t> mapId_;
 
+    void checkIds_(const Group<T>& rhs, const bool keepCurrent) const;
     void postprocess_(const std::size_t& pos);
     std::vector<std::size_t> getElemsId_(const std::vector<Id>&) const;
 };
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index a502457..f17be7b 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -23,6 +23,7 @@
 
 #include "Error.h"
 
+#include <set>
 #include <string>
 
 namespace SEMBA {
@@ -92,6 +93,7 @@ Identifiable<T,Id>& Identifiable<T,Id>::operator=(Group<T>& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    checkIds_(rhs, false);
     Group<T>::operator=(rhs);
     postprocess_(0);
     return *this;
@@ -102,6 +104,7 @@ Identifiable<T,Id>& Identifiable<T,Id>::operator=(Group<T>&& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    checkIds_(rhs, false);
     Group<T>::operator=(std::move(rhs));
     postprocess_(0);
     return *this;
@@ -157,6 +160,7 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
+    checkIds_(rhs, true);
     std::size_t lastSize = this->size();
     Group<T>::add(rhs);
     postprocess_(lastSize);
@@ -165,6 +169,7 @@ Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>&& rhs) {
+    checkIds_(rhs, true);
     std::size_t lastSize = this->size();
     Group<T>::add(std::move(rhs));
     postprocess_(lastSize);
@@ -230,6 +235,21 @@ void Identifiable<T,Id>::removeId(const std::vector<Id>& ids) {
     remove(getElemsId_(ids));
 }
 
+template<typename T, class Id>
+void Identifiable<T,Id>::checkIds_(const Group<T>& rhs,
+                                   const bool keepCurrent) const {
+    std::set<Id> newIds;
+    for (std::size_t i = 0; i < rhs.size(); i++) {
+        const Id id = rhs.get(i)->getId();
+        if (id == Id(0)) {
+            throw typename Error::Id::Zero<Id>();
+        }
+        if ((keepCurrent && existId(id)) || !newIds.insert(id).second) {
+            throw typename Error::Id::Duplicated<Id>(id);
+        }
+    }
+}
+
 template<typename T, class Id>
 void Identifiable<T,Id>::postprocess_(const std::size_t& firstStep) {
     for(std::size_t i = firstStep; i < this->size(); i++) {
-- 
2.43.0


From 93b9b1e962fe87206e2f6374b03ad423518cb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 02/96] fix: replacing an element by position keeps the lookups
 of the collection

---
 src/core/geometry/coordinate/Group.h   |  3 +++
 src/core/geometry/coordinate/Group.hpp | 13 +++++++++++++
 src/core/group/Identifiable.h          |  2 ++
 src/core/group/Identifiable.hpp        | 16 ++++++++++++++++
 4 files changed, 34 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.h b/src/core/geometry/coordinate/Group.h
index 76cc112..f23ef39 100755
--- a/src/core/geometry/coordinate/Group.h
+++ b/src/core/geometry/coordinate/Group.h
@@ -80,6 +80,8 @@ public:
 	SEMBA::Group::Group<const C> getAllInPos(const Math::CVecI3& pos) const;
 
 
+    void set(const std::size_t i, C*);
+
     using SEMBA::Group::Identifiable<C,Id>::add;
     SEMBA::Group::Group<C> add(SEMBA::Group::Group<C>&);
     SEMBA::Group::Group<C> add(SEMBA::Group::Group<C>&&);
@@ -105,6 +107,7 @@ private:
     std::multiset<const CoordI3*, CoordComparator> indexStr_;
 
     void postprocess_(const std::size_t i);
+    void rebuildIndex_();
 };
 
 } /* namespace Coordinate */
diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index c017603..4d9223f 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -156,6 +156,12 @@ SEMBA::Group::Group<const C> Group<C>::getAllInPos(
 	return res;
 }
 
+template<typename C>
+void Group<C>::set(const std::size_t i, C* elem) {
+    SEMBA::Group::Identifiable<C,Id>::set(i, elem);
+    rebuildIndex_();
+}
+
 template<typename C>
 SEMBA::Group::Group<C> Group<C>::add(SEMBA::Group::Group<C>& rhs) {
     std::size_t lastSize = this->size();
@@ -274,6 +280,13 @@ void Group<C>::printInfo() const {
     SEMBA::Group::Printable<C>::printInfo();
 }
 
+template<typename C>
+void Group<C>::rebuildIndex_() {
+    indexUnstr_.clear();
+    indexStr_.clear();
+    postprocess_(0);
+}
+
 template<typename C>
 void Group<C>::postprocess_(const std::size_t fistStep) {
     for (std::size_t i = fistStep; i < this->size(); i++) {
diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index dfc26c2..caebc07 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -62,6 +62,8 @@ public:
     virtual Identifiable<T,Id>       getId(const std::vector<Id>&);
     virtual Identifiable<const T,Id> getId(const std::vector<Id>&) const;
 
+    virtual void set(const std::size_t i, T*);
+
     using Group<T>::add;
     Group<T> add(Group<T>&);
     Group<T> add(Group<T>&&);
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index f17be7b..c0ce3f9 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -158,6 +158,22 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
     return this->get(getElemsId_(ids));
 }
 
+template<typename T, class Id>
+void Identifiable<T,Id>::set(const std::size_t i, T* elem) {
+    const Id oldId = this->get(i)->getId();
+    const Id newId = elem->getId();
+    if (newId == Id(0)) {
+        throw typename Error::Id::Zero<Id>();
+    }
+    if (newId != oldId && existId(newId)) {
+        throw typename Error::Id::Duplicated<Id>(newId);
+    }
+    Group<T>::set(i, elem);
+    mapId_.erase(oldId);
+    mapId_[newId] = i;
+    lastId_ = mapId_.rbegin()->first;
+}
+
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
     checkIds_(rhs, true);
-- 
2.43.0


From 3ea8befed90c63033eca938209b83f60d157f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 03/96] fix: lookups by position after scaling by a negative or
 zero factor

---
 src/core/geometry/coordinate/Group.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index 4d9223f..6762174 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -271,6 +271,7 @@ void Group<C>::applyScalingFactor(const Math::Real factor) {
             *ptr *= factor;
         }
     }
+    rebuildIndex_();
 }
 
 template<typename C>
-- 
2.43.0


From 939448300677397073a7b97a1250d5cf53a057db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 04/96] fix: elements using a coordinate twice are found once

---
 src/core/geometry/element/Group.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 8245c67..d65f9f1 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -66,6 +66,7 @@ Group<const E> Group<E>::getCoordId(const CoordId id) const {
 		for (size_t j = 0; j < elem->numberOfCoordinates(); j++) {
 			if (elem->getV(j)->getId() == id) {
 				res.add(elem);
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 36681beb9ea035e2c802fc25c8e0fc32b114aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 05/96] fix: closest vertex of a collection of elements

---
 src/core/geometry/element/Group.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index d65f9f1..d845d44 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -220,11 +220,12 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     Math::Real minDist = std::numeric_limits<Math::Real>::infinity();
     Group<const ElemR> elems = this->template getOf<ElemR>();
     for (std::size_t b = 0; b < elems.size(); b++) {
-        for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
-            const CoordR3* candidate = elems(i)->getV(i);
-            if ((candidate->pos() - res->pos()).norm() < minDist) {
+        for (std::size_t i = 0; i < elems(b)->numberOfCoordinates(); i++) {
+            const CoordR3* candidate = elems(b)->getV(i);
+            const Math::Real dist = (candidate->pos() - pos).norm();
+            if (dist < minDist) {
                 res = candidate;
-                minDist = (candidate->pos() - res->pos()).norm();
+                minDist = dist;
             }
         }
     }
-- 
2.43.0


From 370b9c9fda47bb541537ed33565d25c56693bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 06/96] fix: lexicographically first and last vertices of an
 element

---
 src/core/geometry/element/Element.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index d9347e1..f364cdb 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -99,6 +99,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMinV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::greater(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
@@ -119,6 +122,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMaxV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::lower(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
-- 
2.43.0


From 01680ce5763c579c4d1d90a5884ee93ca849c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 07/96] fix: comparison of elements with different numbers of
 coordinates

---
 src/core/geometry/element/Element.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index f364cdb..16c8cc4 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -43,6 +43,9 @@ bool Element<T>::operator==(const Base& rhs) const {
         return false;
     }
     const Element<T>* rhsPtr = rhs.castTo<Element<T>>();
+    if (this->numberOfCoordinates() != rhsPtr->numberOfCoordinates()) {
+        return false;
+    }
     bool res = true;
     res &= (this->getId() == rhsPtr->getId());
     for (std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-- 
2.43.0


From 46daf09af1b7f18c7e01d079dc15090c0ac15e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 08/96] fix: enlarging a grid compares with the cell at that
 bound

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index a3bcb1b..8ecd84b 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -637,7 +637,7 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
         boundCell = this->getNumCells()(d) - 1;
     }
     std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,b), siz) || siz == 0.0) {
+    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
         siz = getStep(d,boundCell);
         // Computes enlargement for a padding with same size.
         Math::Real nCellsFrac = std::abs(pad/siz);
-- 
2.43.0


From 902052f0b53a70f0a788230e9bcb38856b6c425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 09/96] fix: cell box of the full domain ends at the last grid
 line

---
 src/core/geometry/Grid.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 8ecd84b..3ce3e27 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -319,12 +319,7 @@ Box<Math::Real,D> Grid<D>::getFullDomainBoundingBox() const {
 
 template<std::size_t D>
 Box<Math::Int,D> Grid<D>::getFullDomainBoundingCellBox() const {
-    CVecID min, max, dims;
-    for (std::size_t n=0; n<D; n++){
-        dims[n] = pos_[n].size();
-    }
-
-    return BoxID(CVecID(0,0,0), dims);
+    return BoxID(CVecID(0,0,0), getNumCells());
 }
 
 template<std::size_t D>
-- 
2.43.0


From e5617828ab61c09d9fd4e5b8fc7669b5ac90d699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 10/96] fix: a grid with different steps on its axes is not
 cartesian

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 3ce3e27..ead4abc 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -218,7 +218,7 @@ bool Grid<D>::isCartesian() const {
     Math::Real canon = getStep(Math::Constants::x)[0];
     for (std::size_t i = 0; i < D; i++) {
         std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 1; n < step.size(); n++) {
+        for (std::size_t n = 0; n < step.size(); n++) {
             if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
                 return false;
             }
-- 
2.43.0


From 3a503f468cc024d3b24c3cc16311000dfb5455da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 11/96] fix: chopping a box by a grid with no plane inside it
 or next to its faces

---
 src/core/geometry/Box.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 800f16c..ff504f0 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -400,14 +400,18 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     // Prepares subgrid with the size of the box preserving grid positions.
     std::vector<Math::Real> pos[D];
     for (std::size_t d = 0; d < D; d++) {
-        pos[d] = grid.getPosInRange(d, min_(d), max_(d));
-        if (min_(d) != pos[d].front()) {
-            std::vector<Math::Real> aux(1,min_(d));
-            aux.insert(aux.end(), pos[d].begin(), pos[d].end());
-            pos[d] = aux;
+        const Math::Real minR = min_(d), maxR = max_(d);
+        const std::vector<Math::Real> planes =
+            grid.getPosInRange(d, minR, maxR);
+        pos[d].push_back(minR);
+        for (std::size_t i = 0; i < planes.size(); i++) {
+            if (Math::Util::greater(planes[i], minR) &&
+                Math::Util::lower  (planes[i], maxR)) {
+                pos[d].push_back(planes[i]);
+            }
         }
-        if (max_(d) != pos[d].back()) {
-            pos[d].push_back(max_(d));
+        if (maxR != minR) {
+            pos[d].push_back(maxR);
         }
     }
     Grid<D> subGrid;
-- 
2.43.0


From 420a85c2a623ea2f9c149f4487ac44bf818905d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 12/96] fix: chopping a box of real coordinates gave boxes at
 cell numbers

---
 src/core/geometry/Box.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index ff504f0..e83e070 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -425,8 +425,8 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     for (Math::Int i = 0; i < numBoxes(Math::Constants::x); i++) {
         for (Math::Int j = 0; j < numBoxes(Math::Constants::y); j++) {
             for (Math::Int k = 0; k < numBoxes(Math::Constants::z); k++) {
-                CVecTD minP = subGrid.getPos(CVecTD(i,j,k));
-                CVecTD maxP = subGrid.getPos(CVecTD(i+1,j+1,k+1));
+                Math::CVecR3 minP = subGrid.getPos(Math::CVecI3(i,j,k));
+                Math::CVecR3 maxP = subGrid.getPos(Math::CVecI3(i+1,j+1,k+1));
                 CVecTD minT, maxT;
                 for (std::size_t d = 0; d < D; d++) {
                     if (minP(d) >= min_(d)) {
-- 
2.43.0


From 9acb07fb1bf88a2d87c632609e11b1e977b69dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 13/96] fix: extending a box by an empty box made it infinite

---
 src/core/geometry/Box.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index e83e070..c1002fd 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -114,8 +114,7 @@ void Box<T,D>::operator << (const CVecTD& p) {
 
 template<class T, std::size_t D>
 void Box<T,D>::operator<<(const Box<T,D>& p) {
-    *this << p.min_;
-    *this << p.max_;
+    *this += p;
 }
 
 template<class T, std::size_t D>
-- 
2.43.0


From b62111708c8c5a49a58ad234d7e747a3ac7f8f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 14/96] fix: a converted mesh's elements referred to the layers
 of the original mesh

---
 src/core/geometry/mesh/Structured.cpp   | 1 +
 src/core/geometry/mesh/Unstructured.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index d7f5185..ec8a6ac 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -106,6 +106,7 @@ Unstructured* Structured::getMeshUnstructured() const {
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->reassignPointers();
     return res;
 }
 
diff --git a/src/core/geometry/mesh/Unstructured.cpp b/src/core/geometry/mesh/Unstructured.cpp
index 6f55741..c9e0373 100755
--- a/src/core/geometry/mesh/Unstructured.cpp
+++ b/src/core/geometry/mesh/Unstructured.cpp
@@ -95,6 +95,7 @@ Structured* Unstructured::getMeshStructured(const Grid3& grid,
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->reassignPointers();
     return res;
 }
 
-- 
2.43.0


From f8b5ede653d0a74bb6e82c0df1606be4bc1b59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 15/96] fix: copying a data set without a mesh lost its sources
 and output requests

---
 src/core/Data.cpp | 64 +++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index 538db1a..29cc91c 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -54,25 +54,25 @@ Data::Data(const Data& rhs) {
         } else {
             mesh->reassignPointers();
         }
+    }
 
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
-            for (size_t i = 0; i < outputRequests->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                        (*outputRequests)(i)->elems();
-                mesh->reassign(outRqElems);
-                (*outputRequests)(i)->set(outRqElems);
-            }
+    if (rhs.outputRequests != nullptr) {
+        outputRequests = rhs.outputRequests->clone();
+        for (size_t i = 0; (mesh != nullptr) && (i < outputRequests->size()); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> outRqElems =
+                    (*outputRequests)(i)->elems();
+            mesh->reassign(outRqElems);
+            (*outputRequests)(i)->set(outRqElems);
         }
+    }
 
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
-            for (size_t i = 0; i < sources->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                        (*sources)(i)->elems();
-                mesh->reassign(sourceElems);
-                (*sources)(i)->set(sourceElems);
-            }
+    if (rhs.sources != nullptr) {
+        sources = rhs.sources->clone();
+        for (size_t i = 0; (mesh != nullptr) && (i < sources->size()); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> sourceElems =
+                    (*sources)(i)->elems();
+            mesh->reassign(sourceElems);
+            (*sources)(i)->set(sourceElems);
         }
     }
 
@@ -122,25 +122,25 @@ Data& Data::operator=(const Data& rhs) {
         } else {
             mesh->reassignPointers();
         }
+    }
 
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
-            for (size_t i = 0; i < outputRequests->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                        (*outputRequests)(i)->elems();
-                mesh->reassign(outRqElems);
-                (*outputRequests)(i)->set(outRqElems);
-            }
+    if (rhs.outputRequests != nullptr) {
+        outputRequests = rhs.outputRequests->clone();
+        for (size_t i = 0; (mesh != nullptr) && (i < outputRequests->size()); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> outRqElems =
+                    (*outputRequests)(i)->elems();
+            mesh->reassign(outRqElems);
+            (*outputRequests)(i)->set(outRqElems);
         }
+    }
 
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
-            for (size_t i = 0; i < sources->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                        (*sources)(i)->elems();
-                mesh->reassign(sourceElems);
-                (*sources)(i)->set(sourceElems);
-            }
+    if (rhs.sources != nullptr) {
+        sources = rhs.sources->clone();
+        for (size_t i = 0; (mesh != nullptr) && (i < sources->size()); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> sourceElems =
+                    (*sources)(i)->elems();
+            mesh->reassign(sourceElems);
+            (*sources)(i)->set(sourceElems);
         }
     }
 
-- 
2.43.0


From fa0ad2c46b1745ba844cf1de8cbbe8cb8a0e85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 16/96] fix: assigning a graph shared its nodes with the
 original

---
 src/core/geometry/graph/Graph.h   |  2 +-
 src/core/geometry/graph/Graph.hpp | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/core/geometry/graph/Graph.h b/src/core/geometry/graph/Graph.h
index eddf1a7..e8d780d 100755
--- a/src/core/geometry/graph/Graph.h
+++ b/src/core/geometry/graph/Graph.h
@@ -46,7 +46,7 @@ public:
 
     virtual Graph& init(const Group::Group<const Elem>& elems) = 0;
 
-    //Graph& operator=(const Graph&);
+    Graph& operator=(const Graph&);
 
     std::size_t numElems () const { return elems_.size();  }
     std::size_t numBounds() const { return bounds_.size(); }
diff --git a/src/core/geometry/graph/Graph.hpp b/src/core/geometry/graph/Graph.hpp
index 3ec07d1..d7207fe 100755
--- a/src/core/geometry/graph/Graph.hpp
+++ b/src/core/geometry/graph/Graph.hpp
@@ -47,14 +47,20 @@ Graph<ELEM,BOUND>::~Graph() {
     }
 }
 
-//template<class ELEM, class BOUND>
-//Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
-//    if (this == &rhs) {
-//        return *this;
-//    }
-//    cloneInfo(rhs);
-//    return *this;
-//}
+template<class ELEM, class BOUND>
+Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    for (std::size_t i = 0; i < elems_.size(); i++) {
+        delete elems_[i];
+    }
+    for (std::size_t i = 0; i < bounds_.size(); i++) {
+        delete bounds_[i];
+    }
+    cloneInfo(rhs);
+    return *this;
+}
 
 template<class ELEM, class BOUND>
 void Graph<ELEM,BOUND>::printInfo() const {
-- 
2.43.0


From 149df02a6058d71c7b6b85584859828e55a8a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 17/96] fix: splitting a graph left old neighbors at the other
 ends of the split elements

---
 src/core/geometry/graph/Vertices.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/graph/Vertices.hpp b/src/core/geometry/graph/Vertices.hpp
index 7f6647d..f856b19 100755
--- a/src/core/geometry/graph/Vertices.hpp
+++ b/src/core/geometry/graph/Vertices.hpp
@@ -108,6 +108,12 @@ void Vertices<ELEM,BOUND>::splitBound(std::size_t i) {
         this->bounds_.back()->getBound(0)->constructNeighbors();
         this->bounds_.back()->constructNeighbors();
     }
+    // The coordinates across the split elements have new neighbors.
+    for (std::size_t j = 0; j < oldAdj.size(); j++) {
+        for (std::size_t k = 0; k < oldAdj[j]->numBounds(); k++) {
+            oldAdj[j]->getBound(k)->constructNeighbors();
+        }
+    }
 }
 
 } /* namespace Graph */
-- 
2.43.0


From 0666ee73e6e1ed5817ff0ffcc9e85b56fee12fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 18/96] fix: connectivities of a surface next to no volume read
 a null pointer

---
 src/core/geometry/graph/Connectivities.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index faaaef1..fac26e8 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -80,6 +80,9 @@ Face Connectivities::getInnerFace(const SurfR* surf) const {
     const GraphElem* local = index_.find(surf->getId())->second;
     std::vector<const CoordR3*> localV = local->elem()->getCoordinates();
     Face face = getMatchingFace_(local, localV);
+    if (face.first == nullptr) {
+        return face;
+    }
     Math::CVecR3 faceNormal = face.first->getSideNormal(face.second);
     if ((surf->getNormal() == faceNormal) || isDomainBoundary(face)) {
         return face;
@@ -89,7 +92,11 @@ Face Connectivities::getInnerFace(const SurfR* surf) const {
 }
 
 Face Connectivities::getOuterFace(const SurfR* surf) const {
-    return getNeighFace(getInnerFace(surf));
+    Face inner = getInnerFace(surf);
+    if (inner.first == nullptr) {
+        return inner;
+    }
+    return getNeighFace(inner);
 }
 
 bool Connectivities::isDomainBoundary(const SurfR* surf) const {
-- 
2.43.0


From 88438cec29963313441c1418c1e4c9bee886987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 19/96] fix: both sides of a line were its first vertex

---
 src/core/geometry/element/Line2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Line2.hpp b/src/core/geometry/element/Line2.hpp
index 13d7bd9..7325e8c 100755
--- a/src/core/geometry/element/Line2.hpp
+++ b/src/core/geometry/element/Line2.hpp
@@ -118,7 +118,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideV(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
@@ -131,7 +131,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideVertex(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
-- 
2.43.0


From bbd85dab5b8b5774e76c218eef52dfeb349e0060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 20/96] fix: side vertices of a quadratic triangle were nodes
 in the middle of the side

---
 src/core/math/simplex/Triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/simplex/Triangle.hpp b/src/core/math/simplex/Triangle.hpp
index 68d7b4d..8d2986b 100755
--- a/src/core/math/simplex/Triangle.hpp
+++ b/src/core/math/simplex/Triangle.hpp
@@ -105,7 +105,7 @@ inline std::size_t Triangle<N>::vertex(std::size_t i) const {
 template<size_t N>
 inline std::size_t Triangle<N>::sideVertex(const std::size_t f,
                                                    const std::size_t i) const {
-    return sideNode(f,i);
+    return sideNode(f, i * N);
 }
 
 template <size_t N>
-- 
2.43.0


From 6136c264180ec6aba0a2cdee4d43cc2bb08d8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 21/96] fix: every hexahedron was reported as regular

---
 src/core/geometry/element/Hexahedron8.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index e8ec60f..5dd9811 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -103,7 +103,7 @@ bool Hexahedron8<T>::isRegular() const {
     // Checks that all edges are aligned with one of the axis.
     static const Math::Vector::Cartesian<T,3> xAxe(1.0, 0.0, 0.0);
     static const Math::Vector::Cartesian<T,3> yAxe(0.0, 1.0, 0.0);
-    static const Math::Vector::Cartesian<T,3> zAxe(1.0, 0.0, 1.0);
+    static const Math::Vector::Cartesian<T,3> zAxe(0.0, 0.0, 1.0);
     for (std::size_t f = 0; f < numberOfFaces(); f++) {
         Math::Vector::Cartesian<T,3> first, second;
         Math::Vector::Cartesian<T,3> inc;
@@ -111,9 +111,9 @@ bool Hexahedron8<T>::isRegular() const {
             first = *getSideV(f, i);
             second = *getSideV(f, (i+1) % numberOfSideVertices());
             inc = (second - first).normalize();
-            if (!((std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
+            if (!(std::abs(std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
 
                 return false;
             }
-- 
2.43.0


From 5f10f78b79c3714d347e5b9c64f77abb3a2cc5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 22/96] fix: the area of a face of a hexahedron was the area of
 half the face

---
 src/core/geometry/element/Hexahedron8.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index 5dd9811..0b7f4a0 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -161,8 +161,8 @@ const std::size_t i) const {
 template<class T>
 Math::Real Hexahedron8<T>::getAreaOfFace(const std::size_t f) const {
     Math::Vector::Cartesian<T,3> v1, v2;
-    v1 = getSideV(f,1)->pos() - getSideV(f,0)->pos();
-    v2 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v1 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v2 = getSideV(f,3)->pos() - getSideV(f,1)->pos();
     return ((Math::Real) 0.5 * (v1 ^ v2).norm());
 }
 
-- 
2.43.0


From a1c7961dae90ca86eab89314858fdd3907ef13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 23/96] fix: crossed and skewed quadrilaterals were reported as
 rectangular

---
 src/core/geometry/element/Surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Surface.hpp b/src/core/geometry/element/Surface.hpp
index 8ec523b..8ea7bee 100755
--- a/src/core/geometry/element/Surface.hpp
+++ b/src/core/geometry/element/Surface.hpp
@@ -48,7 +48,7 @@ bool Surface<T>::isRectangular() const {
         Math::Vector::Cartesian<T,3> p2 = 
             this->getSideVertex((f+1)%4,1)->pos();
         Math::Real sProd = (Math::Real)(p2-p1).dot(p1 - p0);
-        if (Math::Util::greater(sProd, 0.0, 1.0)) {
+        if (Math::Util::notEqual(sProd, 0.0, 1.0)) {
             return false;
         }
     }
-- 
2.43.0


From 4c5053c767e465b5e6da1775bfc9f0f84ab78e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 24/96] fix: a conformal line without identifier ignored its
 coordinates

---
 src/core/geometry/element/LineConformal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 25dff46..06e3334 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -47,7 +47,8 @@ LineConformal::LineConformal(const CoordI3* v[2],
                              const Math::CVecR3& norm,
                              const Layer* lay,
                              const Model* mat)
-:   Elem(lay, mat) {
+:   Elem(lay, mat),
+    LinI2(v) {
     checkCoordinates();
     norm_  = norm;
 }
-- 
2.43.0


From f5d1407a4224bdf4e1db6ac586d021e6e3b41608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 25/96] fix: the field of a TM rectangular port was that of
 another field along y

---
 src/core/source/port/WaveguideRectangular.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 9f6b991..ef3beb5 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -83,7 +83,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
         res(Math::Constants::x) = - m * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
-        res(Math::Constants::y) = - m * sin(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::y) = - n * sin(m * rPos(Math::Constants::x)) *
                                         cos(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::z) = (Math::Real) 0.0;
-- 
2.43.0


From 5a7d01af2d83dd06c46f4c882b3f3353f10dd936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 26/96] fix: the field of a TE rectangular port was not
 divergence free

---
 src/core/source/port/WaveguideRectangular.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index ef3beb5..b343e94 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -72,7 +72,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
     }
     //const Math::Real betaC = sqrt(pow(m,2) + pow(n,2));
     if (getExcitationMode() == Waveguide::TE) {
-        res(Math::Constants::x) =   n * cos(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::x) = - n * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::y) =   m * sin(m * rPos(Math::Constants::x)) *
-- 
2.43.0


From 7aa882121d5e19dbbd831fb85ca460f631003742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 27/96] fix: the field of a coaxial port excited by current
 turned around the axis and not around the port

---
 src/core/source/port/TEMCoaxial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 4d3c5d8..3746f15 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -74,7 +74,7 @@ Math::CVecR3 TEMCoaxial::getWeight(
     }
     case ExcitationMode::current:
     {
-        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ pos).normalize();
+        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ (pos - getOrigin())).normalize();
         return phiHat / (2.0 * Math::Constants::pi * rho);
     }
     default:
-- 
2.43.0


From 3fb11295dee5d3efd7fc31a09116f1473ab60d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:10 +0000
Subject: [PATCH 28/96] fix: the terminations of the six sides could not be set
 at once

---
 src/core/geometry/BoundTerminations.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/geometry/BoundTerminations.hpp b/src/core/geometry/BoundTerminations.hpp
index 068b77c..2f34d38 100755
--- a/src/core/geometry/BoundTerminations.hpp
+++ b/src/core/geometry/BoundTerminations.hpp
@@ -80,9 +80,7 @@ void BoundTerminations<D>::setBounds(
         const std::array<std::array<const Bound*, 2>, D>& bounds) {
     for (std::size_t d = 0; d < D; d++) {
         for (std::size_t p = 0; p < 2; p++) {
-            if (bounds[d][p] != nullptr) {
-                bounds_[d][p] = bounds->getSharedPtr();
-            }
+            setBound(d, p, bounds[d][p]);
         }
     }
 }
-- 
2.43.0


From b407c5da9edddcc1f3ded0b04616c9c61da256fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 29/96] fix: the conductivity of a dispersive medium was lost

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 4e1973c..6de146b 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -47,7 +47,8 @@ Dispersive::Dispersive(const Id id,
     if (magnCond != 0.0) {
         throw std::logic_error("Dispersive magnetic materials not implemented");
     }
-    poleResidue_ = poleResidue;
+    poleResidue_.insert(poleResidue_.end(),
+                        poleResidue.begin(), poleResidue.end());
 }
 
 Dispersive::Dispersive(const Id id,
-- 
2.43.0


From be082317b879157ef1431f314bf6b1e0aeb7cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 30/96] fix: classifying a dispersive medium without poles read
 a pole

---
 src/core/physicalModel/volume/Dispersive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 6de146b..d6ac94a 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -105,7 +105,10 @@ bool Dispersive::isSimplyConductive() const {
     if (!file_.empty()) {
         return false;
     }
-    return (poleResidue_.size() <= 1 && std::abs(getPole(0)) == 0);
+    if (poleResidue_.empty()) {
+        return true;
+    }
+    return (poleResidue_.size() == 1 && std::abs(getPole(0)) == 0);
 }
 
 Math::Real Dispersive::getElectricConductivity() const {
-- 
2.43.0


From 03f00ef67a679d9c940db749bb7772e5646bc326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 31/96] fix: setting a wire end to the one it has used it after
 deleting it

---
 src/core/physicalModel/wire/Extremes.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index ab96df8..dc78c42 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -65,13 +65,14 @@ Extremes::~Extremes() {
 
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
+    const Multiport::Multiport* aux = nullptr;
+    if (extreme != nullptr) {
+        aux = extreme->cloneTo<Multiport::Multiport>();
+    }
     if (extreme_[i] != nullptr) {
         delete extreme_[i];
     }
-    extreme_[i] = nullptr;
-    if (extreme != nullptr) {
-        extreme_[i] = extreme->cloneTo<Multiport::Multiport>();
-    }
+    extreme_[i] = aux;
 }
 
 void Extremes::swapExtremes() {
-- 
2.43.0


From 0b21a876a9628147c595fba584b9a04b1aa32574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 32/96] fix: an assigned wire with ends shared them with the
 original

---
 src/core/physicalModel/wire/Extremes.cpp | 10 ++++++++++
 src/core/physicalModel/wire/Extremes.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index dc78c42..9439b25 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -63,6 +63,16 @@ Extremes::~Extremes() {
     }
 }
 
+Extremes& Extremes::operator=(const Extremes& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    Wire::operator=(rhs);
+    setExtreme(0, rhs.extreme_[0]);
+    setExtreme(1, rhs.extreme_[1]);
+    return *this;
+}
+
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
     const Multiport::Multiport* aux = nullptr;
diff --git a/src/core/physicalModel/wire/Extremes.h b/src/core/physicalModel/wire/Extremes.h
index 26d0b05..84a8f6b 100755
--- a/src/core/physicalModel/wire/Extremes.h
+++ b/src/core/physicalModel/wire/Extremes.h
@@ -38,6 +38,8 @@ public:
     Extremes(const Extremes& rhs);
     virtual ~Extremes();
 
+    Extremes& operator=(const Extremes& rhs);
+
     SEMBA_CLASS_DEFINE_CLONE(Extremes);
 
     const Multiport::Multiport *getExtreme(const std::size_t i) const {
-- 
2.43.0


From 3b5e74ce11129fb03e0cc2bf04eb9f8c8bba7eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 33/96] fix: a dynamic matrix made from rows wrote in memory it
 did not have

---
 src/core/math/matrix/Dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index be8d999..ef4d842 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -66,6 +66,7 @@ template <class T>
 Dynamic<T>::Dynamic(std::size_t rows, std::size_t cols, T** values) {
    _nRows = rows;
    _nCols = cols;
+   _val = new T[_nRows * _nCols];
    assert(values != nullptr);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < _nCols; j++) {
-- 
2.43.0


From 3e6d6772a67028db5bf6791d13f41e6f4bfad670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 34/96] fix: quotients, order, fill and reshape of dynamic
 matrices did not compile

---
 src/core/math/matrix/Dynamic.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index ef4d842..f28e1a7 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -280,7 +280,7 @@ template <class T>
 Dynamic<T>& Dynamic<T>::operator=(const T &param) {
    for (std::size_t i = 0; i < _nRows; i++)
       for (std::size_t j = 0; j < _nCols; j++)
-         _val[i][j] = param;
+         val(i,j) = param;
    return *this;
 }
 
@@ -392,7 +392,7 @@ Dynamic<T> Dynamic<T>::operator/(const T param) const {
    Dynamic<T> res(_nRows, _nCols);
    for (i = 0; i < _nRows; i++)
       for (j = 0; j < _nCols; j++)
-         res._val[i][j] /= param;
+         res(i,j) = val(i,j) / param;
    return res;
 }
 
@@ -425,11 +425,10 @@ Dynamic<T>& Dynamic<T>::operator*=(const T param) {
 
 template <class T>
 Dynamic<T>& Dynamic<T>::operator/=(const T param) {
-   assert(_nRows == param._nRows && _nCols == param._nCols);
    std::size_t i, j;
    for (i = 0; i < _nRows; i++) {
       for (j = 0; j < _nCols; j++) {
-         _val[i][j] /= param;
+         val(i,j) /= param;
       }
    }
    return *this;
@@ -454,10 +453,16 @@ bool Dynamic<T>::operator==(const Dynamic<T>& param) const {
 template <class T>
 bool Dynamic<T>::operator<(const Dynamic<T>& param) const {
    assert(_nRows == param._nRows && _nCols == param._nCols);
-   for (std::size_t i = 0; i < _nRows; i++)
-      for (std::size_t j = 0; j < _nCols; j++)
-         if (_val[i][j] < param._val[i][j])
+   for (std::size_t i = 0; i < _nRows; i++) {
+      for (std::size_t j = 0; j < _nCols; j++) {
+         if (val(i,j) < param(i,j)) {
             return true;
+         }
+         if (val(i,j) > param(i,j)) {
+            return false;
+         }
+      }
+   }
    return false;
 }
 
@@ -508,7 +513,7 @@ void Dynamic<T>::printInfo(std::size_t fr, std::size_t lr,
    std::cout << "Stored values: " << std::endl;
    for (std::size_t i = fr; i <= lr; i++) {
       for (std::size_t j = fc; j < lc; j++)
-          std::cout << _val[i][j] << " ";
+          std::cout << val(i,j) << " ";
       std::cout << std::endl;
    }
 }
@@ -531,7 +536,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one row at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k / _nCols][k % _nCols];
+            res(i,j) = val(k / _nCols, k % _nCols);
             k++;
          }
       break;
@@ -539,7 +544,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one column at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k % _nRows][k / _nRows];
+            res(i,j) = val(k % _nRows, k / _nRows);
             k++;
          }
       break;
-- 
2.43.0


From ae352c39cd7d56292123285e84c009b485d6f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 35/96] fix: the Kronecker product was only right for two by
 two matrices

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index f28e1a7..b91f7c1 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -554,12 +554,12 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
 
 template<class T>
 Dynamic<T> Dynamic<T>::kron(Dynamic<T>& rhs) const {
-   Dynamic<T> res(_nRows + rhs._nRows, _nCols + rhs._nCols);
+   Dynamic<T> res(_nRows * rhs._nRows, _nCols * rhs._nCols);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < rhs._nRows; j++) {
          for (std::size_t k = 0; k < _nCols; k++) {
             for (std::size_t l = 0; l < rhs._nCols; l++) {
-               res(i*_nRows + j, k*_nCols + l) = val(i,k) * rhs(j,l);
+               res(i*rhs._nRows + j, k*rhs._nCols + l) = val(i,k) * rhs(j,l);
             }
          }
       }
-- 
2.43.0


From 7dc173489f70a6438b1eea8f45087b47041bc949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 36/96] fix: removing repeated rows removed the only row of a
 matrix

---
 src/core/math/matrix/Dynamic.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index b91f7c1..c64e796 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -210,6 +210,9 @@ void
 Dynamic<T>::removeRepeatedSortedRows() {
    std::vector<std::vector<T> > aux;
    aux.reserve(nRows());
+   if (nRows() <= 1) {
+      return;
+   }
    std::size_t nonRepeated = 0;
    std::size_t nCompared;
    if (nRows() <= 1 ) {
-- 
2.43.0


From 35e4777b31897d89bec667dd69775640c10258f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 37/96] fix: a dynamic matrix of integers was not equal to
 itself

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index c64e796..e67a0c1 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -445,7 +445,7 @@ bool Dynamic<T>::operator==(const Dynamic<T>& param) const {
       for (std::size_t i = 0; i < _nRows; i++) {
          for (std::size_t j = 0; j < _nCols; j++) {
             T diff = std::abs(this->operator()(i,j) - param(i,j));
-            res &= diff < std::numeric_limits<T>::epsilon() * 1e2;
+            res &= diff <= std::numeric_limits<T>::epsilon() * 1e2;
          }
       }
       return res;
-- 
2.43.0


From 3aeff832822023540d5e16798687583d8841642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 38/96] fix: sorting the rows of a matrix compared values past
 their end

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 src/core/math/matrix/Matrix.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index e67a0c1..95ccaa5 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -193,7 +193,7 @@ Dynamic<T>::copy(
 template<class T>
 Dynamic<T>&
 Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
-   sortRows_omp(0, nCols());
+   sortRows_omp(0, nCols()-1);
    removeRepeatedSortedRows();
    return *this;
 }
@@ -201,7 +201,7 @@ Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
 template<class T>
 void
 Dynamic<T>::sortAndRemoveRepeatedRows() {
-   this->sortRows(0, nCols());
+   this->sortRows(0, nCols()-1);
    removeRepeatedSortedRows();
 }
 
diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index dc4d0ab..f6e8d37 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -224,7 +224,7 @@ template <class T>
 void Matrix<T>::sortRows() {
     // Orders array a with nr rows and nc columns. Ordering is performed
     // using column indicated in orCol as reference. In ascending order.
-    sortRows(0, nCols());
+    sortRows(0, nCols()-1);
 }
 
 template <class T>
-- 
2.43.0


From 35a90b62ce23bf4dd56e2d66aaadc1d83da535a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 39/96] fix: inverting a singular matrix could end the program

---
 src/core/math/matrix/Matrix.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index f6e8d37..587bb50 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -86,7 +86,12 @@ template <class T>
 void Matrix<T>::internal_() {
     assert(Matrix<T>::isSquare());
     std::size_t *pivot = new std::size_t[nRows()];
-    factorizeLU_(pivot);
+    try {
+        factorizeLU_(pivot);
+    } catch (...) {
+        delete [] pivot;
+        throw;
+    }
     invertFactorized_(pivot);
     delete [] pivot;
 }
@@ -139,11 +144,10 @@ void Matrix<T>::factorizeLU_(std::size_t pivot[]) {
     }
     pivot[n-1] = n-1;
     if (val(n-1,n-1) == (T) 0.0) {
-        std::cout << "ERROR@Matrix<T>::factorizeToArray" << std::endl;
-        std::cout << "  Zero pivot on step " << n-1 << std::endl;
         printInfo();
-        assert(false);
-        exit (EXIT_FAILURE);
+        std::stringstream ss;
+        ss << "Zero pivot on step " << n-1;
+        throw std::out_of_range(ss.str());
     }
 }
 
-- 
2.43.0


From ccde73f34cd7d9b2db33ffaa3f5d50ee601b7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 40/96] fix: the product of a static matrix and a vector had
 the size of the vector

---
 src/core/math/matrix/Static.h   | 2 +-
 src/core/math/matrix/Static.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/math/matrix/Static.h b/src/core/math/matrix/Static.h
index a97928c..58f8891 100755
--- a/src/core/math/matrix/Static.h
+++ b/src/core/math/matrix/Static.h
@@ -64,7 +64,7 @@ public:
    Static<T,ROWS,COLS>& operator*=(const T rhs);
    Static<T,ROWS,COLS>& operator/=(const T rhs);
    Static<T,ROWS,COLS> operator*(T rhs) const;
-   Vector::Cartesian<T,COLS> operator*(Vector::Cartesian<T,COLS> rhs) const;
+   Vector::Cartesian<T,ROWS> operator*(Vector::Cartesian<T,COLS> rhs) const;
    Static<T,ROWS,COLS> operator+(Static<T,ROWS,COLS> &rhs) const;
    Static<T,COLS,ROWS>& invert();
    Static<T,COLS,ROWS> transpose();
diff --git a/src/core/math/matrix/Static.hpp b/src/core/math/matrix/Static.hpp
index 78879e0..48ef541 100755
--- a/src/core/math/matrix/Static.hpp
+++ b/src/core/math/matrix/Static.hpp
@@ -243,9 +243,9 @@ Static<T,ROWS,COLS> Static<T,ROWS,COLS>::operator*(T param) const {
 }
 
 template<class T, std::size_t ROWS, std::size_t COLS>
-Vector::Cartesian<T,COLS> Static<T,ROWS,COLS>::operator*(
+Vector::Cartesian<T,ROWS> Static<T,ROWS,COLS>::operator*(
         Vector::Cartesian<T,COLS> rhs) const {
-    Vector::Cartesian<T,COLS> res;
+    Vector::Cartesian<T,ROWS> res;
     for (std::size_t i = 0; i < ROWS; i++) {
         for (std::size_t j = 0; j < COLS; j++) {
             res(i) += this->val(i,j)*rhs(j);
-- 
2.43.0


From 60416bfeec0de215d767f67865ba90d3fa4f8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 41/96] fix: the opposite of a vector reversed the vector
 itself

---
 src/core/math/vector/Cartesian.h   | 2 +-
 src/core/math/vector/Cartesian.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/math/vector/Cartesian.h b/src/core/math/vector/Cartesian.h
index b5d7bc3..692faa2 100755
--- a/src/core/math/vector/Cartesian.h
+++ b/src/core/math/vector/Cartesian.h
@@ -64,7 +64,7 @@ public:
 
     Cartesian<T,D>  operator+(const T param) const;
     Cartesian<T,D>  operator+(const Cartesian<T,D>& param) const;
-    Cartesian<T,D>& operator-();
+    Cartesian<T,D>  operator-() const;
     Cartesian<T,D>  operator-(const T param) const;
     Cartesian<T,D>  operator-(const Cartesian<T,D>& param) const;
     Cartesian<T,D>  operator*(const T param) const;
diff --git a/src/core/math/vector/Cartesian.hpp b/src/core/math/vector/Cartesian.hpp
index 7cf1cd0..6fbc830 100755
--- a/src/core/math/vector/Cartesian.hpp
+++ b/src/core/math/vector/Cartesian.hpp
@@ -189,11 +189,12 @@ Cartesian<T,D> Cartesian<T,D>::operator+(const Cartesian<T,D>& param) const {
 }
 
 template <class T, std::size_t D>
-Cartesian<T,D>& Cartesian<T,D>::operator-() {
+Cartesian<T,D> Cartesian<T,D>::operator-() const {
+    Cartesian<T,D> res;
     for (std::size_t i = 0; i < D; i++) {
-        val[i] = - val[i];
+        res.val[i] = - val[i];
     }
-    return *this;
+    return res;
 }
 
 template <class T, std::size_t D>
-- 
2.43.0


From 710e68192180113ec747750f7b7c4c8263f3ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 42/96] fix: sorting rows read before the first one when the
 smallest was last

---
 src/core/math/matrix/Matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index 587bb50..ef3f774 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -312,7 +312,9 @@ void Matrix<T>::QSRows_(std::size_t p, std::size_t r,
                         const std::size_t iCol, const std::size_t lCol) {
     if (p < r) {
         std::size_t q = partitionRows_(p, r, iCol, lCol);
-        QSRows_(p, q - 1, iCol, lCol);
+        if (q > p) {
+            QSRows_(p, q - 1, iCol, lCol);
+        }
         QSRows_(q + 1, r, iCol, lCol);
     }
 }
-- 
2.43.0


From b59a996657687176c4a102ca215e4b12a2850973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 43/96] fix: the convolution of columns was zero when the
 second was longer than one

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 95ccaa5..137f303 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -481,7 +481,7 @@ Dynamic<T> Dynamic<T>::convolute(const Dynamic<T> &param) const {
    for (j = 1; j <= _nRows + param._nRows - 1; j++) {
       if (j <= _nRows)
          min = j;
-      if (j + 1 - param._nRows >= 1)
+      if (j >= param._nRows)
          max = j + 1 - param._nRows;
       for (i = max; i <= min; i++)
          res(j-1,0) += val(i-1,0) * param(j-i,0);
-- 
2.43.0


From a9a79a6c3938af617adfaeede02b9c4578e8f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 44/96] fix: a rectangular port kept its old size when the mesh
 was scaled

---
 src/core/source/port/WaveguideRectangular.cpp | 19 +++----------------
 src/core/source/port/WaveguideRectangular.h   |  4 ----
 2 files changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index b343e94..deea342 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -34,8 +34,6 @@ WaveguideRectangular::WaveguideRectangular(
     Geometry::Element::Group<const Geometry::Surf>(elem),
     Waveguide(magn, elem, excMode, mode) {
 
-    box_ = this->getBound();
-
     if (mode.first == 0 && mode.second == 0) {
         printInfo();
         throw std::logic_error("At least one mode must be non-zero.");
@@ -46,7 +44,6 @@ WaveguideRectangular::WaveguideRectangular(const WaveguideRectangular& rhs)
 :   SEMBA::Source::Base(rhs),
     Geometry::Element::Group<const Geometry::Surf>(rhs),
     Waveguide(rhs) {
-    box_ = rhs.box_;
 }
 
 WaveguideRectangular::~WaveguideRectangular() {
@@ -92,25 +89,15 @@ Math::CVecR3 WaveguideRectangular::getWeight(
 }
 
 Math::Real WaveguideRectangular::getWidth() const {
-    Math::CVecR3 origin = getOrigin();
-    Math::CVecR3 max = box_.getMax();
-    return max(Math::Constants::x) - origin(Math::Constants::x);
+    return this->getBound().getLength()(Math::Constants::x);
 }
 
 Math::Real WaveguideRectangular::getHeight() const {
-    Math::CVecR3 origin = getOrigin();
-    Math::CVecR3 max = box_.getMax();
-    return max(Math::Constants::y) - origin(Math::Constants::y);
-}
-
-void WaveguideRectangular::set(
-    const Geometry::Element::Group<const Geometry::Elem>& constGroupElems) {
-    Waveguide::set(constGroupElems);
-    box_ = this->getBound();
+    return this->getBound().getLength()(Math::Constants::y);
 }
 
 Math::CVecR3 WaveguideRectangular::getOrigin() const {
-    return box_.getMin();
+    return this->getBound().getMin();
 }
 
 } /* namespace Port */
diff --git a/src/core/source/port/WaveguideRectangular.h b/src/core/source/port/WaveguideRectangular.h
index f8885c5..92c2c03 100755
--- a/src/core/source/port/WaveguideRectangular.h
+++ b/src/core/source/port/WaveguideRectangular.h
@@ -43,16 +43,12 @@ public:
 
     SEMBA_CLASS_DEFINE_CLONE(WaveguideRectangular);
 
-    void set(const Geometry::Element::Group<const Geometry::Elem>&);
-
     const std::string& getName() const;
     Math::Real getWidth() const;
     Math::Real getHeight() const;
 
     Math::CVecR3 getOrigin() const;
     Math::CVecR3 getWeight(const Math::CVecR3& pos) const;
-private:
-    Geometry::BoxR3 box_; // This has been included for performance.
 };
 
 } /* namespace Port */
-- 
2.43.0


From acacf20b2bdcbb349b3ed7d7aec8836dcc0fe470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 45/96] fix: importing a project without materials read through
 a null pointer

---
 src/parser/json/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 8bac27e..6e4b1b4 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -188,10 +188,10 @@ Source::Group<>* Parser::readSources(
 }
 
 PhysicalModel::Group<>* Parser::readPhysicalModels(const json& j){
+    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     if (j.find("materials") == j.end()) {
-        return nullptr;
+        return res;
     }
-    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     json mats = j.at("materials");
     for (json::const_iterator it = mats.begin(); it != mats.end(); ++it) {
         res->add(readPhysicalModel( *it ));
-- 
2.43.0


From 90663ed8767d1954102d98d3131cfca3b0a5e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 46/96] fix: importing a project with an empty list of grids
 read its first one

---
 src/parser/json/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 6e4b1b4..45e997c 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -538,6 +538,9 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         throw std::logic_error("Grids object not found.");
     }
 
+    if (j.at("grids").empty()) {
+        throw std::logic_error("Grids object is empty.");
+    }
     json g = j.at("grids").front();
     std::string gridType = g.at("gridType").get<std::string>();
     if (gridType.compare("gridCondition") == 0) {
-- 
2.43.0


From b1388cf5cb09745289e1e9189b4ec1f1d84b4812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 47/96] fix: requests of magnetic bulk currents were imported
 as electric ones

---
 src/core/outputRequest/BulkCurrent.cpp | 5 +++--
 src/core/outputRequest/BulkCurrent.h   | 3 ++-
 src/parser/json/Parser.cpp             | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/outputRequest/BulkCurrent.cpp b/src/core/outputRequest/BulkCurrent.cpp
index 74a71a4..0cdc356 100755
--- a/src/core/outputRequest/BulkCurrent.cpp
+++ b/src/core/outputRequest/BulkCurrent.cpp
@@ -29,8 +29,9 @@ BulkCurrent::BulkCurrent(
         const std::string& name,
         const Geometry::Element::Group<const Geometry::Elem>& elem,
         const Math::Constants::CartesianAxis& dir,
-        const Math::UInt& skip)
-:   SEMBA::OutputRequest::Base(bulkCurrentElectric, name, domain),
+        const Math::UInt& skip,
+        const Type& type)
+:   SEMBA::OutputRequest::Base(type, name, domain),
     Geometry::Element::Group<const Geometry::Elem>(elem) {
 
     dir_ = dir;
diff --git a/src/core/outputRequest/BulkCurrent.h b/src/core/outputRequest/BulkCurrent.h
index bf7be2d..0ae1ab2 100755
--- a/src/core/outputRequest/BulkCurrent.h
+++ b/src/core/outputRequest/BulkCurrent.h
@@ -33,7 +33,8 @@ public:
                 const std::string& name,
                 const Geometry::Element::Group<const Geometry::Elem>& box,
                 const Math::Constants::CartesianAxis& dir,
-                const Math::UInt& skip);
+                const Math::UInt& skip,
+                const Type& type = bulkCurrentElectric);
     BulkCurrent(const BulkCurrent& rhs);
     virtual ~BulkCurrent();
 
diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 45e997c..2cd6e36 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -392,18 +392,18 @@ OutputRequest::Base* Parser::readOutputRequest(
 			return new OutputRequest::BulkCurrent(domain, name,
 				boxToElemGroup(mesh, j.at("box").get<std::string>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else if (gidOutputType.compare("OutRq_on_point") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		}
 	}
 
-- 
2.43.0


From 2acc40b7d05952c235a5c34c3876a32d939cecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 48/96] fix: reading samples from a file that ends in a new
 line added one more at zero

---
 src/core/math/function/LinearInterpolation.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/function/LinearInterpolation.hpp b/src/core/math/function/LinearInterpolation.hpp
index 7149542..8e60c3a 100755
--- a/src/core/math/function/LinearInterpolation.hpp
+++ b/src/core/math/function/LinearInterpolation.hpp
@@ -112,9 +112,8 @@ void LinearInterpolation<S, T>::initFromFile(
                                      std::string(" does not exist"));
     }
 
-    while (!iStream.eof()) {
-        std::pair<Real, Real> value;
-        iStream >> value.first >> value.second;
+    std::pair<Real, Real> value;
+    while (iStream >> value.first >> value.second) {
         value_.insert(value);
     }
 
-- 
2.43.0


From 8a86f394fbdc6445e6a2639c93d0060834754ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 49/96] fix: a truncated project file was imported as far as it
 could be read

---
 src/parser/json/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 2cd6e36..2118785 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -60,6 +60,7 @@ Data Parser::read(std::istream& stream) const {
     }
     catch( const std::exception & ex ) {
         std::cerr << ex.what() << std::endl;
+        throw;
     }
 
     Util::ProgressBar progress;
-- 
2.43.0


From 7e1a24072fd01474f1aa3865817a42ba4b9bb65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 50/96] fix: later solids of an STL file went to the layer of
 the first, and an unnamed one was called facet

---
 src/parser/stl/Parser.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index ef2a5af..389e4aa 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -63,17 +63,20 @@ Data Parser::read(std::istream& stl) const {
 	stl.seekg(0); // Rewinds.
 	Geometry::Layer::Group<Geometry::Layer::Layer> lG;
     Geometry::Element::Group<Geometry::ElemR> eG;
-    while (stl.peek() != EOF) {
-        stl >> label;
+    while (stl >> label) {
         if (label == "solid") {
+            std::string line;
+            std::getline(stl, line);
             std::string layerName;
-            stl >> layerName;
+            std::stringstream(line) >> layerName;
             Geometry::Layer::Layer* lay = 
                 lG.addId(new Geometry::Layer::Layer(layerName))(0);
-            std::string line;
             while (stl.peek() != EOF) {
                 std::getline(stl, line);
-                if (trim(line) == "outer loop") {
+                if (trim(line).compare(0, 8, "endsolid") == 0) {
+                    break;
+                }
+                if (line == "outer loop") {
                     std::vector<const Geometry::CoordR3*> coord;
                     coord.reserve(3);
                     while (stl.peek() != EOF && label != "endloop") {
-- 
2.43.0


From 2d3e31bdf3cbd0f1ffa3e0d69fd3e18612bf780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 51/96] fix: a facet of an STL file without three vertices was
 built from memory past the end of its list

---
 src/parser/stl/Parser.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index 389e4aa..20679bd 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -45,8 +45,7 @@ Data Parser::read(std::istream& stl) const {
     vertices.reserve(nLines);
 	
     stl.seekg(0); // Rewinds.
-    while (stl.peek() != EOF) {
-        stl >> label;
+    while (stl >> label) {
         if (label == "vertex") {
             Math::CVecR3 vertex;
             stl >> vertex(Math::Constants::x)
@@ -79,8 +78,7 @@ Data Parser::read(std::istream& stl) const {
                 if (line == "outer loop") {
                     std::vector<const Geometry::CoordR3*> coord;
                     coord.reserve(3);
-                    while (stl.peek() != EOF && label != "endloop") {
-                        stl >> label;
+                    while (label != "endloop" && stl >> label) {
                         if (label == "vertex") {
                             Math::CVecR3 pos;
                             stl >> pos(Math::Constants::x)
@@ -89,6 +87,10 @@ Data Parser::read(std::istream& stl) const {
                             coord.push_back(cG.getPos(pos));
                         }
                     }
+                    if (label != "endloop" || coord.size() != 3) {
+                        throw std::logic_error(
+                                "Facet without exactly three vertices.");
+                    }
                     label.clear();
                     eG.addId(new Geometry::Tri3(Geometry::ElemId(0),
                                                 &coord[0], lay));
-- 
2.43.0


From 2b0874a348a7670c023c7aa21df1b66d95d8e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 52/96] fix: erasing a member of a settings tree left the names
 of the later ones at other members

---
 src/core/argument/Object.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0706994..f1f141b 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -212,9 +212,13 @@ public:
     }
     Object& eraseMember(const std::string& name) {
         if (existsName(name)) {
-            objMembers_ .erase(objMembers_.begin() + nameMembers_.at(name));
-            objName_    .erase(objName_   .begin() + nameMembers_.at(name));
-            nameMembers_.erase(name);
+            const std::size_t pos = nameMembers_.at(name);
+            objMembers_ .erase(objMembers_.begin() + pos);
+            objName_    .erase(objName_   .begin() + pos);
+            nameMembers_.clear();
+            for (std::size_t i = 0; i < objName_.size(); i++) {
+                nameMembers_[objName_[i]] = i;
+            }
         }
         return *this;
     }
-- 
2.43.0


From 60c8322260a7cd47a800b1a8f08fbfaf8e451b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 53/96] fix: assigning or adding to a settings tree a part of
 itself read freed memory

---
 src/core/argument/Object.h | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index f1f141b..8950801 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -97,14 +97,11 @@ public:
     }
 
     Object& operator =(const Object& rhs) {
-        if (this == &rhs) {
-            return *this;
-        }
-        copy_(rhs);
-        return *this;
+        return *this = Object(rhs);
     }
     Object& operator =(Object&& rhs) {
-        move_(std::move(rhs));
+        Object aux(std::move(rhs)); // rhs can be part of this tree.
+        move_(std::move(aux));
         return *this;
     }
     template<typename... T>
@@ -191,16 +188,10 @@ public:
         return objMembers_.at(nameMembers_.at(name));
     }
     Object&   addMember(const std::string& name, const Object& val) {
-        setObject();
-        if (nameMembers_.count(name) == 0) {
-            nameMembers_[name] = objMembers_.size();
-            objMembers_.push_back(Object());
-            objName_   .push_back(name);
-        }
-        objMembers_.at(nameMembers_.at(name)) = val;
-        return *this;
+        return addMember(name, Object(val));
     }
-    Object&   addMember(const std::string& name, Object&& val) {
+    Object&   addMember(const std::string& name, Object&& rhs) {
+        Object val(std::move(rhs)); // rhs can be part of this tree.
         setObject();
         if (nameMembers_.count(name) == 0) {
             nameMembers_[name] = objMembers_.size();
@@ -243,11 +234,10 @@ public:
         return objMembers_.at(i);
     }
     Object&   addValue(const Object& val) {
-        setArray();
-        objMembers_.push_back(val);
-        return *this;
+        return addValue(Object(val));
     }
-    Object&   addValue(Object&& val) {
+    Object&   addValue(Object&& rhs) {
+        Object val(std::move(rhs)); // rhs can be part of this tree.
         setArray();
         objMembers_.push_back(std::move(val));
         return *this;
-- 
2.43.0


From 9b45fdb6fe479cd705da755b0aa2cdf64f03b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 54/96] fix: real settings were stored with six digits only

---
 src/core/argument/Object.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/argument/Object.hpp b/src/core/argument/Object.hpp
index adfc622..b5071fb 100755
--- a/src/core/argument/Object.hpp
+++ b/src/core/argument/Object.hpp
@@ -83,6 +83,7 @@ Object& Object::set(const T&... params) {
 template<typename T>
 void Object::set_(const T& param) {
     std::stringstream aux;
+    aux.precision(std::numeric_limits<Real>::digits10);
     aux << param;
     strValue_.push_back(aux.str());
 }
@@ -90,6 +91,7 @@ void Object::set_(const T& param) {
 template<typename T1, typename T2, typename... T>
 void Object::set_(const T1& param1, const T2& param2, const T&... params) {
     std::stringstream aux;
+    aux.precision(std::numeric_limits<Real>::digits10);
     aux << param1;
     strValue_.push_back(aux.str());
     set_(param2, params...);
-- 
2.43.0


From 2c8144f257d4bfed2c48e34cab0b9e4cfa7a9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 55/96] fix: reading a list from several words joined numbers
 of different words and dropped others

---
 src/core/argument/StringParser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 1f2ea16..144edcc 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -185,13 +185,13 @@ struct Details {
                     rem.clear();
                     if(!remain.empty()) {
                         used = used.substr(0, used.find(remain));
-                        rem.push_front(remain);
+                        inlist.push_front(remain);
                         trim(used);
                     }
                     if(!used.empty()) {
                         outlist.push_back(used);
                     }
-                    aux1 = remain;
+                    aux1.clear();
                 } else {
                     aux1 += " ";
                 }
-- 
2.43.0


From 68473026f35a9498748908baf40f88f108ba5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 56/96] fix: refusing an argument freed the name and the forms
 of the one it clashed with

---
 src/core/argument/GroupBase.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index a88d337..954ebb7 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -245,18 +245,20 @@ OptionBase& GroupBase::addOption(OptionBase* arg) {
 }
 
 void GroupBase::addPositionProcess(GroupBase* child, PositionBase* pos) {
+    bool nameInserted = false;
     try {
-        if (child == nullptr) {
+        if ((child == nullptr) || child->isMutuallyExclusive()) {
             insertName(pos->getName());
+            nameInserted = true;
+        }
+        if (child == nullptr) {
             positions_.push_back(pos);
-        } else if (child->isMutuallyExclusive()) {
-            insertName(pos->getName());
         }
         if (parent_ != nullptr) {
             parent_->addPositionProcess(this, pos);
         }
     } catch (...) {
-        if (names_.count(pos->getName()) != 0) {
+        if (nameInserted) {
             names_.erase(pos->getName());
         }
         if ((child == nullptr) && !positions_.empty()) {
@@ -275,15 +277,21 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
     } else {
         name = opt->getLongIdentifier();
     }
+    bool shortInserted = false, longInserted = false, nameInserted = false;
     try {
         if (opt->hasShortIdentifier()) {
             insertShortOpt(opt->getShortIdentifier(), name);
+            shortInserted = true;
         }
         if (opt->hasLongIdentifier()) {
             insertLongOpt(opt->getLongIdentifier(), name);
+            longInserted = true;
         }
-        if (child == nullptr) {
+        if ((child == nullptr) || child->isMutuallyExclusive()) {
             insertName(opt->getName());
+            nameInserted = true;
+        }
+        if (child == nullptr) {
             if (optionName_.count(name) == 0) {
                 options_.push_back(opt);
                 optionName_[name] = opt;
@@ -291,22 +299,18 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
             } else {
                 throw Error::Group::Repeated(name);
             }
-        } else if (child->isMutuallyExclusive()) {
-            insertName(opt->getName());
         }
         if (parent_ != nullptr) {
             parent_->addOptionProcess(this, opt);
         }
     } catch (...) {
-        if (names_.count(opt->getName()) != 0) {
+        if (nameInserted) {
             names_.erase(opt->getName());
         }
-        if (opt->hasShortIdentifier() &&
-            (shortOpts_.count(opt->getShortIdentifier()))) {
+        if (shortInserted) {
             shortOpts_.erase(opt->getShortIdentifier());
         }
-        if (opt->hasLongIdentifier() &&
-            (longOpts_.count(opt->getLongIdentifier()))) {
+        if (longInserted) {
             longOpts_.erase(opt->getLongIdentifier());
         }
         if ((child == nullptr) && !options_.empty()) {
-- 
2.43.0


From 4c785f3f244decd9bb12463f269a20cda4ea0575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 57/96] fix: copying a counted switch always failed

---
 src/core/argument/MultiSwitch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/MultiSwitch.cpp b/src/core/argument/MultiSwitch.cpp
index 02653e2..1d36257 100755
--- a/src/core/argument/MultiSwitch.cpp
+++ b/src/core/argument/MultiSwitch.cpp
@@ -58,7 +58,7 @@ MultiSwitch::MultiSwitch(const std::string& name,
 
 MultiSwitch::MultiSwitch(const MultiSwitch& rhs)
 :   Argument(rhs),
-    SwitchBase(rhs) {
+    OptionBase(rhs) {
     hasDefault_ = rhs.hasDefault_;
     default_    = rhs.default_;
 }
-- 
2.43.0


From 1c21fe135895019f5368583ca5e3c75b0c13652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 58/96] fix: a value joined to a long option with = was never
 understood

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 1b1177d..296635a 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -222,7 +222,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         } else if (getArgType_(*it) == ArgType::LongOpt) {
             std::size_t posEq = it->find("=");
             if (posEq != std::string::npos) {
-                arg.first  = it->substr(2, posEq);
+                arg.first  = it->substr(2, posEq - 2);
                 arg.second.clear();
                 if (!it->substr(posEq+1).empty()) {
                     arg.second.push_back(it->substr(posEq+1));
-- 
2.43.0


From e11bd2d9b80d1a337f8c3a32fa50e4e63852730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 59/96] fix: positional arguments given on the command line
 were taken as missing

---
 src/core/argument/GroupBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index 954ebb7..eb42c61 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -196,7 +196,7 @@ void GroupBase::parsePostprocess(Object& out) {
             throw Error::Group::Required(argsAll);
         }
     } else {
-        for (std::size_t i = 0; i < positions_.size(); i++) {
+        for (std::size_t i = lastPosParsed_; i < positions_.size(); i++) {
             std::string optName = positions_[i]->getName();
             Object aux;
             positions_[i]->notParsed(aux);
-- 
2.43.0


From ab7fcb7cb41c32b7578005f4898cff096f60fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 60/96] fix: words of the command line that no argument takes
 were dropped instead of reported

---
 src/core/argument/Parser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 296635a..89304b3 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -320,7 +320,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         }
     }
     std::vector<std::list<std::string>> positions(1);
-    std::vector<std::list<std::string>> rem(1);
+    std::vector<std::list<std::string>> rem;
     for (std::size_t i = 0; i < begPositions.size(); i++) {
         positions.back().push_back(begPositions[i]);
     }
@@ -334,6 +334,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
     for (std::size_t i = 0; i < endPositions.size(); i++) {
         positions.back().push_back(endPositions[i]);
     }
+    rem = positions;
     for (std::size_t i = 0; i < numChildPositions(); i++) {
         if (positions[0].empty()) {
             break;
@@ -368,9 +369,9 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         }
     }
     for (std::size_t i = 0; i < rem.size(); i++) {
-        input_.insert(input_.end(),
-                      rem[i].begin(),
-                      rem[i].end());
+        res.second.insert(res.second.end(),
+                          rem[i].begin(),
+                          rem[i].end());
     }
     try {
         parsePostprocess(res.first);
-- 
2.43.0


From e7f4e90a4704dcd8a1eb940e7343c710a26525bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 61/96] fix: a second parsing of a command line remembered what
 the first one had found

---
 src/core/argument/Group.cpp     | 8 ++++++++
 src/core/argument/Group.h       | 1 +
 src/core/argument/GroupBase.cpp | 8 ++++++++
 src/core/argument/GroupBase.h   | 1 +
 src/core/argument/Parser.cpp    | 1 +
 5 files changed, 19 insertions(+)

diff --git a/src/core/argument/Group.cpp b/src/core/argument/Group.cpp
index e38195c..9c00c68 100755
--- a/src/core/argument/Group.cpp
+++ b/src/core/argument/Group.cpp
@@ -102,6 +102,14 @@ MEGroup& Group::addMutuallyExclusiveGroup() {
     return *newGroup;
 }
 
+void Group::parseReset() {
+    GroupBase::parseReset();
+    lastPosParsed_ = 0;
+    for (std::size_t i = 0; i < child_.size(); i++) {
+        child_[i]->parseReset();
+    }
+}
+
 void Group::parsePreprocess(Object& out) {
     out.setObject();
     for (std::size_t i = 0; i < child_.size(); i++) {
diff --git a/src/core/argument/Group.h b/src/core/argument/Group.h
index 58ded80..fbee92e 100755
--- a/src/core/argument/Group.h
+++ b/src/core/argument/Group.h
@@ -47,6 +47,7 @@ public:
                     const std::string& = std::string());
     MEGroup& addMutuallyExclusiveGroup();
 
+    void parseReset();
     void parsePreprocess(Object&);
     void parsePosition(Object&,
                        std::vector<std::list<std::string>>&,
diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index eb42c61..a2b07e8 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -149,6 +149,14 @@ std::vector<std::string> GroupBase::possibleOptions(const std::string& id,
     return res;
 }
 
+void GroupBase::parseReset() {
+    lastPosParsed_ = 0;
+    for (std::map<std::string, bool>::iterator
+         it = optionParsed_.begin(); it != optionParsed_.end(); ++it) {
+        it->second = false;
+    }
+}
+
 void GroupBase::parsePreprocess(Object& out) {
     out.setObject();
 }
diff --git a/src/core/argument/GroupBase.h b/src/core/argument/GroupBase.h
index f3ba077..f41717f 100755
--- a/src/core/argument/GroupBase.h
+++ b/src/core/argument/GroupBase.h
@@ -75,6 +75,7 @@ public:
     virtual PositionBase& addPosition(PositionBase*);
     virtual OptionBase&   addOption  (OptionBase*);
 
+    virtual void parseReset();
     virtual void parsePreprocess(Object&);
     virtual void parsePosition(Object&,
                                std::vector<std::list<std::string>>&,
diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 89304b3..4284a6c 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -286,6 +286,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
             }
         }
     }
+    parseReset();
     parsePreprocess(res.first);
     for (std::map<std::string,
                   std::vector<std::pair<std::size_t,
-- 
2.43.0


From 5c2231869c8edb3a432edf7b47dcf2da9e248825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 62/96] fix: setting the description of a parser never ended

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 4284a6c..00fa39d 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -47,7 +47,7 @@ Parser& Parser::usage(const std::string& usage) {
 }
 
 Parser& Parser::description(const std::string& desc) {
-    description(desc);
+    Group::description(desc);
     return *this;
 }
 
-- 
2.43.0


From 83831a037691b365bb8464a688ad3eb8f9bffb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 63/96] fix: the part of a word that an option used was lost
 when the rest of it repeated it

---
 src/core/argument/StringParser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 144edcc..f23fc88 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -146,7 +146,7 @@ struct Details {
                     trim(used);
                     trim(remain);
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
+                        used = used.substr(0, used.size() - remain.size());
                         inlist.push_front(remain);
                         trim(used);
                     }
@@ -184,7 +184,7 @@ struct Details {
                     trim(remain);
                     rem.clear();
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
+                        used = used.substr(0, used.size() - remain.size());
                         inlist.push_front(remain);
                         trim(used);
                     }
-- 
2.43.0


From 72b54b98db0f846ad8d22fba8af6a0c3b920accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 64/96] fix: refusing a value that is not among the choices
 gave no reason

---
 src/core/argument/Value.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/argument/Value.h b/src/core/argument/Value.h
index 4b58b83..27231aa 100755
--- a/src/core/argument/Value.h
+++ b/src/core/argument/Value.h
@@ -67,6 +67,7 @@ public:
             }
         }
         aux << ")";
+        str_ = aux.str();
     }
     virtual ~NotChoices() throw() {}
 
-- 
2.43.0


From 5e4334305cdf793129ddffbedec91c9e5523031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 65/96] fix: snapping was left undefined unless set

---
 src/mesher/Options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index aec0797..fde5c11 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -34,6 +34,7 @@ namespace Mesher {
 Options::Options() {
     mesher_ = Mesher::DMesher;
     mode_ = Mode::structured;
+    snap_ = false;
     forbiddenLength_ = 1.0;
     subgridPoints_ = 0;
     scalingFactor_ = 1.0;
-- 
2.43.0


From 4a300a54d247535183d278fb8042511bd6b864cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 66/96] fix: resuming until a number of time steps asked for
 the step 0 when the time step is not known

---
 src/solver/Options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/Options.cpp b/src/solver/Options.cpp
index cb0eec1..5026c05 100755
--- a/src/solver/Options.cpp
+++ b/src/solver/Options.cpp
@@ -202,7 +202,9 @@ std::string Options::toArgsStr() const {
         ss << " -cfl " << getCFL();
     }
     if (isResumeSimulation()) {
-        if (getTimeStep() != 0.0) {
+        if (endingCondition_ == EndingCondition::numberOfTimeSteps) {
+            ss << " -r " << getNumberOfTimeSteps();
+        } else if (getTimeStep() != 0.0) {
             ss << " -r " << (std::size_t)floor(getFinalTime() / getTimeStep());
         } else {
             ss << " -r " << (std::size_t)floor(getFinalTime());
-- 
2.43.0


From 095f7ab38979c1f0a51c188b65f3708eb7047bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 67/96] fix: asking a path for its base name modified the path

---
 src/core/filesystem/Project.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 8549bd7..2267993 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -129,7 +129,9 @@ std::string Project::getBasename() const {
     _splitpath(getFilename().c_str(), nullptr, nullptr, fname, ext);
     std::string res = std::string(fname) + ext;
 #else
-    std::string res(basename(const_cast<char*>(c_str())));
+    std::string copy(c_str());
+    copy.push_back('\0');
+    std::string res(basename(&copy[0]));
 #endif
     return res;
 }
-- 
2.43.0


From 85b65ee7cdea6ca1f8a3d75e7835dcc6decfdb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 68/96] fix: the extension of a path was taken from its
 folders, or was the whole path

---
 src/core/filesystem/Project.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 2267993..92a1fa4 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -340,14 +340,8 @@ void Project::exec(const std::string arguments) const {
 }
 
 std::string Project::getExtension() const {
-    size_t pos = rfind(".");
-    if (pos == std::string::npos) {
-        return *this;
-    }
-    if (pos == 0) {
-        return *this;
-    }
-    return this->substr(pos, std::string::npos);
+    std::string base = getBasename();
+    return base.substr(removeExtension_(base).length());
 }
 
 std::string Project::getFullPath() const {
-- 
2.43.0


From e38f62477a2b3679c7c550ba0e8c9e9e65a8802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 69/96] fix: listing the files with an extension listed those
 with it anywhere in their names

---
 src/core/filesystem/Project.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 92a1fa4..63754d6 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -203,8 +203,9 @@ std::vector<std::string> Project::getFilesBasenames_(
     // Stores files with names matching extension.
     std::vector<std::string> res;
     for (std::size_t i = 0; i < files.size(); i++) {
-        size_t index = files[i].find(extension);
-        if (index != std::string::npos) {
+        if (files[i].length() >= extension.length() &&
+            files[i].compare(files[i].length() - extension.length(),
+                             extension.length(), extension) == 0) {
             res.push_back(files[i]);
         }
     }
-- 
2.43.0


From aaee8599122e12013d92ea140f8a67b9d1b7eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 70/96] fix: paths out of the folder, or with its name inside,
 were cut when made relative to it

---
 src/core/filesystem/Project.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 63754d6..b71e6ee 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -301,10 +301,14 @@ Project Project::relativeTo(const Project& rhs) const {
     } else {
         rhsFolder = rhs.getFolder();
     }
+    if (rhsFolder.empty() || rhsFolder.back() != '/') {
+        rhsFolder += "/";
+    }
     std::string name = getFilename();
-    std::string res = name.substr(name.find(rhsFolder) + rhsFolder.length(),
-                                  name.length());
-    return Project(res);
+    if (name.compare(0, rhsFolder.length(), rhsFolder) != 0) {
+        return Project(name);
+    }
+    return Project(name.substr(rhsFolder.length()));
 }
 
 bool Project::isFolder() const {
-- 
2.43.0


From 508bf3fab21c3232b7fa31605b9007e6d77d4f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 71/96] fix: whether a path that does not exist is a folder was
 left to chance

---
 src/core/filesystem/Project.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index b71e6ee..8f30d4f 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -288,8 +288,7 @@ bool Project::checkExistance_(const std::string& fn) const {
     }
 #else
     struct stat sb;
-    exists = (stat(fn.c_str(), &sb) == 0);
-    exists &= S_ISDIR(sb.st_mode);
+    exists = (stat(fn.c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
     return exists;
 }
@@ -322,8 +321,7 @@ bool Project::isFolder() const {
     return false;
 #else
     struct stat sb;
-    stat(c_str(), &sb);
-    return S_ISDIR(sb.st_mode);
+    return stat(c_str(), &sb) == 0 && S_ISDIR(sb.st_mode);
 #endif
 }
 
-- 
2.43.0


From a25d9ea8f436f4a1a05d3add5225411e7711e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 72/96] fix: asking for the full path of what does not exist
 crashed

---
 src/core/filesystem/Project.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 8f30d4f..6a5046d 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -21,6 +21,7 @@
 
 #include "Project.h"
 
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <stdexcept>
@@ -350,7 +351,13 @@ std::string Project::getExtension() const {
 std::string Project::getFullPath() const {
     std::string res;
 #ifndef _WIN32
-    res = (const char*) realpath(this->getFilename().c_str(), nullptr);
+    char* path = realpath(this->getFilename().c_str(), nullptr);
+    if (path == nullptr) {
+        throw std::ios_base::failure(getFilename() +
+                                     std::string(" not exists"));
+    }
+    res = path;
+    free(path);
     if (Project(res).isFolder()) {
         res += "/";
     }
-- 
2.43.0


From 1738396267496261ddfd642d6a49d8ed75ea41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 73/96] fix: deleting a folder or executing a file whose path
 has blanks acted on other paths

---
 src/core/filesystem/Project.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 6a5046d..4b5ae68 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -38,6 +38,21 @@
 namespace SEMBA {
 namespace FileSystem {
 
+#ifndef _WIN32
+// Writes a path for the shell.
+static std::string quote(const std::string& path) {
+    std::string res = "'";
+    for (std::size_t i = 0; i < path.size(); i++) {
+        if (path[i] == '\'') {
+            res += "'\\''";
+        } else {
+            res += path[i];
+        }
+    }
+    return res + "'";
+}
+#endif
+
 Project::Project() {
 
 }
@@ -266,8 +281,7 @@ void Project::deleteDirIfExists_(const std::string& directory) const {
 
     // Deletes if exists.
     if (checkExistance_(directory)) {
-        std::string command = "rm -r ";
-        command += directory;
+        std::string command = "rm -r -- " + quote(directory);
         if (system(command.c_str())) {
             std::cout << std::endl << "WARNING @ Project: ";
             std::cout << "System command failed to execute " << command
@@ -339,7 +353,11 @@ void Project::exec(const std::string arguments) const {
     if (!canExecute()) {
         throw std::ios_base::failure("Can not execute " + *this);
     }
+#ifndef _WIN32
+    std::string cmd = quote(getFilename()) + " " + arguments;
+#else
     std::string cmd = getFilename() + " " + arguments;
+#endif
     system(cmd.c_str());
 }
 
-- 
2.43.0


From 38cf4c0db42de33e7c54363621bb39d2158020d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 74/96] fix: folders were said to be executable

---
 src/core/filesystem/Project.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 4b5ae68..b46be07 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -127,7 +127,7 @@ bool Project::canExecute() const {
     if (stat(c_str(), &st) < 0) {
         return false;
     }
-    if ((st.st_mode & S_IEXEC) != 0) {
+    if (S_ISREG(st.st_mode) && (st.st_mode & S_IEXEC) != 0) {
         return true;
     }
     return false;
-- 
2.43.0


From 083fef5462f086d8d902ee97681994ad5721f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 75/96] fix: groups with the same name overwrote each other
 when exported to VTK

---
 src/exporter/vtk/Exporter.cpp | 7 ++++++-
 src/exporter/vtk/Exporter.h   | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index d39d262..ab89ca2 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -156,12 +156,17 @@ void Exporter::writeMesh_(const Data* smb) {
 }
 
 void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
-                          const std::string& name,
+                          const std::string& groupName,
                           std::ofstream& outMain,
                           std::size_t& part) {
     if (elems.empty()) {
         return;
     }
+    // Groups with the same name are written in different files.
+    std::string name = groupName;
+    for (std::size_t i = 1; !written_.insert(name).second; i++) {
+        name = groupName + "_" + std::to_string(i);
+    }
     outMain << "    " << "<DataSet "
             << "group=\"" << name << "\" "
             << "part=\"" << part++ << "\" "
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index cbc6f77..8fdb76a 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -23,6 +23,7 @@
 #define SEMBA_EXPORTER_VTK_EXPORTER_H_
 
 #include <fstream>
+#include <set>
 #include <utility>
 #include <algorithm>
 
@@ -61,9 +62,11 @@ private:
         VTK_QUADRATIC_TETRA      = 24,
         VTK_QUADRATIC_HEXAHEDRON = 25
     };
+    std::set<std::string> written_;
+
     void writeMesh_(const Data* smb);
     void writeFile_(const Group::Group<const Geometry::ElemR>& elems,
-                    const std::string& name,
+                    const std::string& groupName,
                     std::ofstream& outMain,
                     std::size_t& part);
     std::pair<std::vector<Math::CVecR3>, 
-- 
2.43.0


From f43159044f3ff442c143f5da4954603a41a03164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 76/96] fix: names with characters that XML reserves made the
 VTK index unreadable

---
 src/exporter/vtk/Exporter.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index ab89ca2..8d44e82 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -32,6 +32,30 @@ namespace {
 #else
     const std::string Separator = "/";
 #endif
+
+// Writes a text as the value of an XML attribute.
+std::string escape(const std::string& text) {
+    std::string res;
+    for (std::size_t i = 0; i < text.size(); i++) {
+        switch (text[i]) {
+        case '&':
+            res += "&amp;";
+            break;
+        case '<':
+            res += "&lt;";
+            break;
+        case '>':
+            res += "&gt;";
+            break;
+        case '"':
+            res += "&quot;";
+            break;
+        default:
+            res += text[i];
+        }
+    }
+    return res;
+}
 }
 
 namespace SEMBA {
@@ -168,10 +192,11 @@ void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
         name = groupName + "_" + std::to_string(i);
     }
     outMain << "    " << "<DataSet "
-            << "group=\"" << name << "\" "
+            << "group=\"" << escape(name) << "\" "
             << "part=\"" << part++ << "\" "
             << "file=\""
-            << getBasename() + ".vtk" + Separator + name + ".vtu" << "\" "
+            << escape(getBasename() + ".vtk" + Separator + name + ".vtu")
+            << "\" "
             << "/>" << std::endl;
 
     std::string filename = getFilename() + ".vtk" + Separator + name + ".vtu";
-- 
2.43.0


From 3b227faa32b40370ac81cdc9ca580eb4acbe5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 77/96] fix: points exported to VTK were rounded to six digits

---
 src/exporter/vtk/Exporter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 8d44e82..f75d71e 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -21,6 +21,8 @@
 
 #include "Exporter.h"
 
+#include <limits>
+
 #include "geometry/mesh/Unstructured.h"
 #include "geometry/element/Triangle.h"
 #include "geometry/element/Quadrilateral.h"
@@ -245,6 +247,7 @@ void Exporter::writePoints_(std::ofstream &outFile,
             << "format=\"ascii\""
             << ">" << std::endl;
     outFile << "         ";
+    outFile.precision(std::numeric_limits<float>::max_digits10);
     for (std::size_t i = 0; i < pos.size(); i++) {
         outFile << " " << pos[i](Math::Constants::x)
                 << " " << pos[i](Math::Constants::y)
-- 
2.43.0


From d15229c574541624d189ed6a48f0d8255c7e9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 78/96] fix: polylines were exported to VTK as the line between
 their ends

---
 src/exporter/vtk/Exporter.cpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index f75d71e..17a5b6e 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -24,6 +24,7 @@
 #include <limits>
 
 #include "geometry/mesh/Unstructured.h"
+#include "geometry/element/Polyline.h"
 #include "geometry/element/Triangle.h"
 #include "geometry/element/Quadrilateral.h"
 #include "geometry/element/Tetrahedron.h"
@@ -35,6 +36,22 @@ namespace {
     const std::string Separator = "/";
 #endif
 
+// A cell has the vertices of the element, a polyline all of its points.
+std::size_t numberOfPoints(const SEMBA::Geometry::ElemR* elem) {
+    if (elem->is<SEMBA::Geometry::Polylin>()) {
+        return elem->numberOfCoordinates();
+    }
+    return elem->numberOfVertices();
+}
+
+const SEMBA::Geometry::CoordR3* getPoint(const SEMBA::Geometry::ElemR* elem,
+                                         const std::size_t i) {
+    if (elem->is<SEMBA::Geometry::Polylin>()) {
+        return elem->getV(i);
+    }
+    return elem->getVertex(i);
+}
+
 // Writes a text as the value of an XML attribute.
 std::string escape(const std::string& text) {
     std::string res;
@@ -228,10 +245,10 @@ std::pair<std::vector<Math::CVecR3>, std::map<Geometry::CoordId, std::size_t>>
     std::map<Geometry::CoordId, std::size_t> mapCoords;
     std::vector<Math::CVecR3> pos;
     for (std::size_t i = 0; i < elems.size(); i++) {
-        for (std::size_t j = 0; j < elems(i)->numberOfVertices(); j++) {
-            if (mapCoords.count(elems(i)->getVertex(j)->getId()) == 0) {
-                mapCoords[elems(i)->getVertex(j)->getId()] = pos.size();
-                pos.push_back(elems(i)->getVertex(j)->pos());
+        for (std::size_t j = 0; j < numberOfPoints(elems(i)); j++) {
+            if (mapCoords.count(getPoint(elems(i), j)->getId()) == 0) {
+                mapCoords[getPoint(elems(i), j)->getId()] = pos.size();
+                pos.push_back(getPoint(elems(i), j)->pos());
             }
         }
     }
@@ -271,8 +288,8 @@ void Exporter::writeCells_(
             << ">" << std::endl;
     outFile << "         ";
     for (std::size_t i = 0; i < elems.size(); i++) {
-        for (std::size_t j = 0; j < elems(i)->numberOfVertices(); j++) {
-            outFile << " " << mapCoords.at(elems(i)->getVertex(j)->getId());
+        for (std::size_t j = 0; j < numberOfPoints(elems(i)); j++) {
+            outFile << " " << mapCoords.at(getPoint(elems(i), j)->getId());
         }
     }
     outFile << std::endl;
@@ -286,7 +303,7 @@ void Exporter::writeCells_(
     outFile << "         ";
     std::size_t offset = 0;
     for (std::size_t i = 0; i < elems.size(); i++) {
-        offset += elems(i)->numberOfVertices();
+        offset += numberOfPoints(elems(i));
         outFile << " " << offset;
     }
     outFile << std::endl;
@@ -302,6 +319,8 @@ void Exporter::writeCells_(
         outFile << " ";
         if (elems(i)->is<Geometry::Nod>()) {
             outFile << CELL_TYPES::VTK_VERTEX;
+        } else if (elems(i)->is<Geometry::Polylin>()) {
+            outFile << CELL_TYPES::VTK_POLY_LINE;
         } else if (elems(i)->is<Geometry::Lin>()) {
             outFile << CELL_TYPES::VTK_LINE;
         } else if (elems(i)->is<Geometry::Tri>()) {
-- 
2.43.0


From 23bdb239f7d3f9d53b3c69c952dbfbba896d5eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 79/96] fix: exporting to GiD data without solver or scaling
 factor crashed

---
 src/exporter/gid/Exporter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 995e699..3267427 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -68,8 +68,12 @@ void Exporter::init_(
         throw std::logic_error("Invalid GiD exporting mode.");
     }
 
-    Math::Real scalingFactor =
-        smb->solver->getSettings()("geometryScalingFactor").getReal();
+    Math::Real scalingFactor = 0.0;
+    if (smb->solver != nullptr &&
+            smb->solver->getSettings().existsName("geometryScalingFactor")) {
+        scalingFactor =
+            smb->solver->getSettings()("geometryScalingFactor").getReal();
+    }
     if (scalingFactor != 0.0) {
         smb->mesh->applyScalingFactor(1.0 / scalingFactor);
     }
-- 
2.43.0


From 01847e275d6912c46efd2c2564c870fcafc7d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 80/96] fix: the mesh was left without its scaling after
 exporting it to GiD

---
 src/exporter/gid/Exporter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 3267427..fd295ed 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -78,6 +78,9 @@ void Exporter::init_(
         smb->mesh->applyScalingFactor(1.0 / scalingFactor);
     }
     writeMesh_(smb);
+    if (scalingFactor != 0.0) {
+        smb->mesh->applyScalingFactor(scalingFactor);
+    }
 }
 
 Exporter::Exporter(
-- 
2.43.0


From f8bf4c164393d426a9efa6d19479005dd07dc3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 81/96] fix: copying, comparing or evaluating a magnitude
 without function crashed, and assigning one lost its function

---
 src/core/source/magnitude/Magnitude.cpp | 29 ++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 4f3b63c..3e6719c 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -21,6 +21,8 @@
 
 #include "Magnitude.h"
 
+#include <stdexcept>
+
 namespace SEMBA {
 namespace Source {
 namespace Magnitude {
@@ -34,8 +36,11 @@ Magnitude::Magnitude(Math::FunctionRR* mathFunction) {
 }
 
 Magnitude::Magnitude(const Magnitude& rhs) {
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
 }
 
 Magnitude::~Magnitude() {
@@ -48,21 +53,35 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    Math::FunctionRR* aux = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        aux = dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
+    if (mathFunction_ != nullptr) {
+        delete mathFunction_;
+    }
+    mathFunction_ = aux;
     return *this;
 }
 
 bool Magnitude::operator ==(const Magnitude& rhs) const {
+    if (mathFunction_ == nullptr || rhs.mathFunction_ == nullptr) {
+        return mathFunction_ == rhs.mathFunction_;
+    }
     return *mathFunction_ == *rhs.mathFunction_;
 }
 
 void Magnitude::printInfo() const {
     std::cout << " --- Magnitude ---" << std::endl;
-    mathFunction_->printInfo();
+    if (mathFunction_ != nullptr) {
+        mathFunction_->printInfo();
+    }
 }
 
 Math::Real Magnitude::evaluate(const Math::Real time) const {
+    if (mathFunction_ == nullptr) {
+        throw std::logic_error("Magnitude without function.");
+    }
     return mathFunction_->operator()(time);
 }
 
-- 
2.43.0


From f5b74555d5a52c0160157a577b3873d8d56bafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 82/96] fix: a magnitude was equal to a numerical one that was
 not equal to it

---
 src/core/source/magnitude/Magnitude.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 3e6719c..12ad297 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -22,6 +22,7 @@
 #include "Magnitude.h"
 
 #include <stdexcept>
+#include <typeinfo>
 
 namespace SEMBA {
 namespace Source {
@@ -65,6 +66,9 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
 }
 
 bool Magnitude::operator ==(const Magnitude& rhs) const {
+    if (typeid(*this) != typeid(rhs)) {
+        return false;
+    }
     if (mathFunction_ == nullptr || rhs.mathFunction_ == nullptr) {
         return mathFunction_ == rhs.mathFunction_;
     }
-- 
2.43.0


From 16fe032211f35acf65f95451a404712dfa1da658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 83/96] fix: numerical magnitudes could not be evaluated

---
 src/core/source/magnitude/Numerical.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index d07d98c..c9169f2 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -124,8 +124,7 @@ bool Numerical::operator==(const Magnitude& rhs) const {
 }
 
 Math::Real Numerical::evaluate(const Math::Real time) const {
-    throw std::logic_error("Numerical::evaluate not implemented");
-    return 0.0;
+    return Magnitude::evaluate(time);
 }
 
 void Numerical::printInfo() const {
-- 
2.43.0


From 95748d10c7189abf980a58b58015ec969ae92c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 84/96] fix: the ends of a magnitude were lost when it was made
 numerical

---
 src/core/source/magnitude/Numerical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index c9169f2..a0e79f1 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -81,7 +81,7 @@ Numerical::Numerical(const FileSystem::Project& file,
         const Math::Real current = mag.evaluate(time);
         bool isAligned = Math::Util::equal(current, interpolated,
                 0.0, std::numeric_limits<Math::Real>::epsilon());
-        if (!isAligned) {
+        if (!isAligned || i == 0 || i + 1 == nSteps) {
             out << std::setw(16) << std::setfill(' ') << time 
                 << std::setw(18) << std::setfill(' ') << current 
                 << std::endl;
-- 
2.43.0


From 30a1f45d28c91f94c758ef11988f0ba45bd704af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 85/96] fix: making a magnitude numerical with no step sampled
 it always at the same instant

---
 src/core/source/magnitude/Numerical.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index a0e79f1..b9226a4 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -49,10 +49,12 @@ Numerical::Numerical(const FileSystem::Project& file,
         return;
     }
     std::size_t nSteps;
+    Math::Real step = timeStep;
     if (timeStep != 0.0) {
         nSteps = (std::size_t)std::abs(finalTime / timeStep);
     } else {
         nSteps = defaultNumberOfSteps;
+        step = finalTime / nSteps;
         std::cerr << "WARNING @ Numerical: "
                   << "Attempting to build a "
                   << "numerical magnitude with a 0.0 step."
@@ -69,8 +71,8 @@ Numerical::Numerical(const FileSystem::Project& file,
     for (std::size_t i = 0; i < nSteps; i++) {
         // Determines if neigh values are aligned with current.
         std::vector<std::pair<Math::Real,Math::Real>> preAndPost;
-        const Math::Real tPre = time - timeStep;
-        const Math::Real tPost = time + timeStep;
+        const Math::Real tPre = time - step;
+        const Math::Real tPost = time + step;
         preAndPost.push_back(
             std::pair<Math::Real,Math::Real>(tPre, mag.evaluate(tPre)));
         preAndPost.push_back(
@@ -87,7 +89,7 @@ Numerical::Numerical(const FileSystem::Project& file,
                 << std::endl;
         }
         //
-        time += timeStep;
+        time += step;
     }
     out.close();
 
-- 
2.43.0


From 0b6b46378aca3bbc2415755bbfb056fbddbb7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 86/96] fix: a product of polynomials lost the monomials that
 repeat a power

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 6610c6f..16738db 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -274,7 +274,7 @@ Matrix::Dynamic<T> Polynomial<T>::polynomialToMatrix() const {
     Matrix::Dynamic<T>  res(maxPower() + 1, 1);
     // Copies monomials to vector positions.
     for (std::size_t i = 0; i < nm_; i++)
-        res(mp_[i][0], 0) = mv_[i];
+        res(mp_[i][0], 0) += mv_[i];
     return res;
 }
 
-- 
2.43.0


From ab875a6addca1442a34bfe33e2abc37ef4b4e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 87/96] fix: of two null monomials together only one was
 removed

---
 src/core/math/function/Polynomial.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 16738db..fba8a5d 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -149,11 +149,14 @@ void Polynomial<T>::derive(std::size_t coord) {
 
 template<class T>
 void Polynomial<T>::removeZeros() {
-    for (std::size_t i = 0; i < nm_; i++)
+    std::size_t i = 0;
+    while (i < nm_)
         if (mv_[i] == 0) {
             nm_--;
             mv_.erase(mv_.begin() + i);
             mp_.erase(mp_.begin() + i);
+        } else {
+            i++;
         }
 }
 
-- 
2.43.0


From 7e83187ff4b6204aa5ce1971ce250ea075bfa9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 88/96] fix: hardness of a source on lines was printed after
 its type

---
 src/core/source/OnLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/OnLine.cpp b/src/core/source/OnLine.cpp
index 1fb47d0..902745c 100755
--- a/src/core/source/OnLine.cpp
+++ b/src/core/source/OnLine.cpp
@@ -77,7 +77,7 @@ std::string OnLine::getTypeStr() const {
 }
 
 std::string OnLine::getHardnessStr() const {
-    switch (type_) {
+    switch (hardness_) {
     case hard:
         return "Hard";
     default:
-- 
2.43.0


From 8e861ac9b3e565eed3cd1fd3adf25f6d3948572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 89/96] fix: means of negative integers were wrong

---
 src/core/math/util/Statistic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/util/Statistic.hpp b/src/core/math/util/Statistic.hpp
index b5f7250..3a51001 100755
--- a/src/core/math/util/Statistic.hpp
+++ b/src/core/math/util/Statistic.hpp
@@ -41,7 +41,7 @@ T meanDifference(const std::vector<T>& vec) {
 template<class T>
 T mean(const std::vector<T>& vec) {
     const std::size_t vS = vec.size();
-    return sum(vec) / vS;
+    return sum(vec) / (Real) vS;
 }
 
 template<class T>
-- 
2.43.0


From 040082dbd57e48f213651a6662d5dc2e4ee78ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 90/96] fix: the null vector had no spherical coordinates

---
 src/core/math/vector/Spherical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/vector/Spherical.cpp b/src/core/math/vector/Spherical.cpp
index f6777b3..70f7a3d 100755
--- a/src/core/math/vector/Spherical.cpp
+++ b/src/core/math/vector/Spherical.cpp
@@ -42,7 +42,7 @@ Spherical::Spherical(const Real theta_, const Real phi_) {
 
 Spherical& Spherical::operator=(const CVecR3& param) {
     radius = param.norm();
-    theta = acos(param.val[2] / radius);
+    theta = (radius == 0.0) ? 0.0 : acos(param.val[2] / radius);
     phi = atan2(param.val[1], param.val[0]);
     return *this;
 }
-- 
2.43.0


From ba0e9764625cb537c2b23f5bae6eca9e9d3f6b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 91/96] fix: the spectrum of a Gaussian had the phase of its
 delay turned over

---
 src/core/math/function/Gaussian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Gaussian.cpp b/src/core/math/function/Gaussian.cpp
index bf0c303..2f60df3 100755
--- a/src/core/math/function/Gaussian.cpp
+++ b/src/core/math/function/Gaussian.cpp
@@ -84,7 +84,7 @@ Real Gaussian::getFreq() const {
 
 std::complex<Real> Gaussian::getFourier(const Real freq) const {
     const Real pi2 = (Real) 2.0 * Constants::pi;
-    const std::complex<Real> phase(0.0, getDelay() *pi2*freq);
+    const std::complex<Real> phase(0.0, - getDelay() *pi2*freq);
     const std::complex<Real> phaseShift = std::exp(phase);
     return getSpread() * std::sqrt(pi2)
             * phaseShift
-- 
2.43.0


From 7ed1ba7f32b7d4777f0c2619f79c84576c51c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 92/96] fix: the spectrum of a modulated Gaussian ignored its
 frequency

---
 src/core/math/function/Gaussian.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/math/function/Gaussian.cpp b/src/core/math/function/Gaussian.cpp
index 2f60df3..5adc7a9 100755
--- a/src/core/math/function/Gaussian.cpp
+++ b/src/core/math/function/Gaussian.cpp
@@ -83,6 +83,11 @@ Real Gaussian::getFreq() const {
 }
 
 std::complex<Real> Gaussian::getFourier(const Real freq) const {
+    if (getFreq() != 0.0) {
+        const Gaussian envelope(getSpread(), getDelay());
+        return (envelope.getFourier(freq - getFreq()) +
+                envelope.getFourier(freq + getFreq())) * (Real) 0.5;
+    }
     const Real pi2 = (Real) 2.0 * Constants::pi;
     const std::complex<Real> phase(0.0, - getDelay() *pi2*freq);
     const std::complex<Real> phaseShift = std::exp(phase);
-- 
2.43.0


From 4e073b9c0a59e1c9b4bdea12fb32ae6fcc745b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 93/96] fix: matched connectors were refused unless they had
 the values of a circuit

---
 src/parser/json/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 2118785..97fb743 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -310,6 +310,8 @@ PhysicalModel::PhysicalModel* Parser::readPhysicalModel(const json& j) {
 			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
 		} else if (mpType == PhysicalModel::Multiport::Multiport::openCircuit) {
 			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
+		} else if (mpType == PhysicalModel::Multiport::Multiport::matched) {
+			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
         } else if (mpType == PhysicalModel::Multiport::Multiport::dispersive) {
             return new PhysicalModel::Multiport::Dispersive(id, name,
                     j.at("filename").get<std::string>());
-- 
2.43.0


From 61fd55a592803473bb6bb4f1529167055d2df27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 94/96] fix: every word after the first full line of a help
 text was put on its own line

---
 src/core/argument/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index d9f1009..7d77bd7 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -246,7 +246,7 @@ void Formatter::printParagraph_(const std::string& str,
         }
         if (newPos > max && !first) {
             std::cout << std::endl << std::string(min, ' ') << word;
-            pos = newPos;
+            pos = min + word.size();
         } else {
             if (!first) {
                 std::cout << " ";
-- 
2.43.0


From c03f1b9dd6659b47b6c13710e380003f1eee587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 95/96] fix: program, default and choices were not replaced in
 the help of an argument

---
 src/core/argument/Formatter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index 7d77bd7..624043b 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -228,6 +228,7 @@ std::string Formatter::replaceChoices_(
         res += aux.substr(0, aux.find(CHOICES)) + choicesStr;
         aux  = aux.substr(aux.find(CHOICES) + CHOICES.size());
     }
+    res += aux;
     return res;
 }
 
@@ -359,10 +360,8 @@ void Formatter::printArg_(const std::string& arg,
         } else {
             std::cout << std::string(tab-arg.size(),' ');
         }
-        replaceProg_(help);
-        replaceDefault_(help, def);
-        replaceChoices_(help, choices);
-        printParagraph_(help);
+        printParagraph_(replaceChoices_(replaceDefault_(replaceProg_(help), def),
+                                        choices));
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0


From 0744744310166ea874a183ded29ba021d61ac2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 96/96] fix: the help of an argument was filled as if it began
 at the first column

---
 src/core/argument/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index 624043b..648963c 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -361,7 +361,7 @@ void Formatter::printArg_(const std::string& arg,
             std::cout << std::string(tab-arg.size(),' ');
         }
         printParagraph_(replaceChoices_(replaceDefault_(replaceProg_(help), def),
-                                        choices));
+                                        choices), tab, tab);
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0

