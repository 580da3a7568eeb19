From 8b70d6b247f619404a27b454313a9d7b2c636686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:24 +0000
Subject: [PATCH 01/56] fix: keep the outer contour first when a face is merged
 into a face it encloses

---
 src/geomap/cppmap.cxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d0b3230..f053380 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2101,6 +2101,12 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
     // append all remaining anchors to survivor's list:
     if(mergedFace.anchors_.size() > 1)
     {
+        // if the removed edge belonged to a hole of mergedFace, survivor was
+        // enclosed by mergedFace and inherits its outer contour (see below)
+        bool survivorWasEnclosed =
+            survivor.label() && contour2 != mergedFace.anchors_.begin();
+        Face::Contours::size_type oldContourCount = survivor.anchors_.size();
+
 #ifndef ANCHOR_LISTS // toggle according to anchors_ being std::vector/std::list
         survivor.anchors_.insert(survivor.anchors_.end(),
                                  mergedFace.anchors_.begin(), contour2);
@@ -2110,6 +2116,14 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
         mergedFace.anchors_.erase(contour2);
         survivor.anchors_.splice(survivor.anchors_.end(), mergedFace.anchors_);
 #endif
+
+        // the outer contour always comes first:
+        if(survivorWasEnclosed)
+        {
+            Face::AnchorIterator outerContour = survivor.anchors_.begin();
+            std::advance(outerContour, oldContourCount);
+            std::iter_swap(survivor.anchors_.begin(), outerContour);
+        }
     }
 
     // relabel region in image
-- 
2.43.0


From df78e0c3f677124e2a70c78e94e5137ad33c7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:24 +0000
Subject: [PATCH 02/56] fix: splitEdge() must not keep the scanlines of the
 unsplit edge

---
 src/geomap/cppmap.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index f053380..9b0a4fe 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1937,9 +1937,9 @@ GeoMap::EdgePtr GeoMap::splitEdge(
             changedNode.anchor_ = -(int)result->label();
     }
 
+    edge.scanLines_.reset();
     if(labelImage_)
     {
-        edge.scanLines_.reset();
         rawAddEdgeToLabelImage(edge.scanLines(), *labelImage_, -1);
         rawAddEdgeToLabelImage(result->scanLines(), *labelImage_, -1);
     }
-- 
2.43.0


From 23a2b3e490126cd093d088246c9a3a854c62a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:51 +0000
Subject: [PATCH 03/56] fix: mergeEdges() crashed if only the surviving edge
 had cached scanlines

---
 src/geomap/cppmap.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 9b0a4fe..89a3987 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -200,9 +200,10 @@ void GeoMap::Edge::concatenate(Edge &other, bool atEnd, bool reverse)
 
     if(scanLines_.get())
     {
-        if(reverse) // FIXME: call other.scanLines() (might be NULL)
-            other.scanLines_->reverse();
-        (*scanLines_) += other.scanLines();
+        vigra::Scanlines otherScanLines(other.scanLines());
+        if(reverse)
+            otherScanLines.reverse();
+        (*scanLines_) += otherScanLines;
     }
 }
 
-- 
2.43.0


From a16048088dd3b9b6d214791825a4b8b5aa9f88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:38 +0000
Subject: [PATCH 04/56] fix: setHasLabelImage(true) must not overwrite enclosed
 faces, nor keep stale pixel areas

Faces were filled in label order, including their holes, so an enclosing
face with a larger label overwrote the faces in its holes; and the
infinite face's pixel area was accumulated again on each re-enabling.
---
 src/geomap/cppmap.cxx | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 89a3987..6013103 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -980,6 +980,15 @@ typedef vigra::MultiArray<2, int> LabelImage;
 void markEdgeInLabelImage(
     const vigra::Scanlines &scanlines, LabelImage &labelImage);
 
+// orders finite faces by decreasing area of their outer contours
+struct OuterAreaCompare
+{
+    bool operator()(GeoMap::FacePtr f1, GeoMap::FacePtr f2) const
+    {
+        return contourArea(*f1->contoursBegin()) > contourArea(*f2->contoursBegin());
+    }
+};
+
 void GeoMap::setHasLabelImage(bool onoff)
 {
     if(onoff == hasLabelImage())
@@ -993,13 +1002,24 @@ void GeoMap::setHasLabelImage(bool onoff)
             LabelImage::size_type(imageSize().width(), imageSize().height()), 0);
         faceLabelLUT_.initIdentity(faces_.size());
 
+        // faces are filled including their holes, so enclosing faces
+        // must not be drawn after the faces within their holes:
+        face(0)->pixelArea_ = 0;
+        Faces finiteFaces;
         for(FaceIterator it = finiteFacesBegin(); it.inRange(); ++it)
+        {
+            (*it)->pixelArea_ = 0;
+            finiteFaces.push_back(*it);
+        }
+        std::sort(finiteFaces.begin(), finiteFaces.end(), OuterAreaCompare());
+
+        for(Faces::iterator it = finiteFaces.begin();
+            it != finiteFaces.end(); ++it)
         {
             std::auto_ptr<vigra::Scanlines> scanlines =
                 (*it)->scanLines();
             fillScannedPoly(*scanlines, (int)(*it)->label(),
                             destMultiArrayRange(*labelImage_));
-            (*it)->pixelArea_ = 0;
         }
 
         for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
-- 
2.43.0


From b317616ceb6b4ebb759241dbf8a3ab49e47e1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:59 +0000
Subject: [PATCH 05/56] fix: Polygon::push_back()/extend() added twice the
 partial area of the new segment

---
 src/geomap/polygon.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 22cc271..de615e5 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -352,7 +352,7 @@ class Polygon : public PointArray<POINT>
                 length_ += (v - this->points_.back()).magnitude();
             if(partialAreaValid_)
                 partialArea_ += (v[0]*this->points_.back()[1] -
-                                      v[1]*this->points_.back()[0]);
+                                 v[1]*this->points_.back()[0]) / 2.0;
         }
         Base::push_back(v);
     }
@@ -380,7 +380,7 @@ class Polygon : public PointArray<POINT>
                 if(partialAreaValid_)
                     partialArea_ +=
                         (other.points_.front()[0]*this->points_.back()[1] -
-                         other.points_.front()[1]*this->points_.back()[0]);
+                         other.points_.front()[1]*this->points_.back()[0]) / 2.0;
             }
         }
         if(lengthValid_)
-- 
2.43.0


From 13bfca7fe1d5fa48ee9bed6ea3eea2754f7d6507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:59 +0000
Subject: [PATCH 06/56] fix: BBoxPolygon::setPoint() must enlarge a cached
 bounding box

---
 src/geomap/polygon.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index de615e5..9e0c569 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -652,6 +652,8 @@ class BBoxPolygon : public Polygon<POINT>
                ((x[1] > this->points_[pos][1]) &&
                 (this->points_[pos][1] == boundingBox_.begin()[1])))
                 boundingBoxValid_ = false;
+            else
+                boundingBox_ |= x;
         }
         Base::setPoint(pos, x);
     }
-- 
2.43.0


From 11edee12988e21bc6bcf4aca293c5d6f7ccc8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:59 +0000
Subject: [PATCH 07/56] fix: Polygon::clear() must not keep the cached
 properties

---
 src/geomap/polygon.hxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 9e0c569..1d46f70 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -390,6 +390,12 @@ class Polygon : public PointArray<POINT>
         this->points_.insert(this->points_.end(), otherBegin, other.end());
     }
 
+    void clear()
+    {
+        invalidateProperties();
+        Base::clear();
+    }
+
     void setPoint(unsigned int pos, const_reference x)
     {
         if(lengthValid_)
@@ -639,6 +645,12 @@ class BBoxPolygon : public Polygon<POINT>
         Base::extend(other);
     }
 
+    void clear()
+    {
+        boundingBoxValid_ = false;
+        Base::clear();
+    }
+
     void setPoint(unsigned int pos, const_reference x)
     {
         if(boundingBoxValid_)
-- 
2.43.0


From d93c27fff7b5d34b59491962c18eab34be454411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:32 +0000
Subject: [PATCH 08/56] fix: Node::setPosition() must not keep cached edge and
 face properties

The attached edges' lengths, partial areas, bounding boxes and scanlines
and the areas and bounding boxes of the faces around the node still
described the old position.
---
 src/geomap/cppmap.cxx | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 6013103..a2b0807 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2211,15 +2211,13 @@ void GeoMap::Node::setPosition(const Vector2 &p)
         GeoMap::Dart d(map_, anchor_);
         do
         {
-            if(d.label() > 0)
-            {
-                (*map_->edge(d.label()))[ 0] = p;
-            }
-            else
-            {
-                GeoMap::Edge &edge(*map_->edge(-d.label()));
-                edge[edge.size()-1] = p;
-            }
+            GeoMap::Edge &edge(*d.edge());
+            edge.setPoint(d.label() > 0 ? 0 : edge.size()-1, p);
+            edge.scanLines_.reset();
+
+            if(map_->mapInitialized())
+                d.leftFace()->flags_ &= ~(
+                    Face::BOUNDING_BOX_VALID | Face::AREA_VALID);
         }
         while(d.nextSigma().label() != anchor_);
     }
-- 
2.43.0


From c9732a309962122cbf6ad64cd6972875c45de414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:38 +0000
Subject: [PATCH 09/56] fix: changeFaceLabels() must not relabel some faces
 before rejecting the mapping

---
 src/geomap/cppmap.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index a2b0807..02efde1 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1254,8 +1254,12 @@ void GeoMap::changeFaceLabels(
             !newFaces[newFaceLabels[l]],
             "changeFaceLabels: trying to map multiple faces to the same label");
         newFaces[newFaceLabels[l]] = faces_[l];
-        faces_[l]->label_ = newFaceLabels[l];
     }
+
+    // the mapping is valid, apply it:
+    for(CellLabel l = 0; l < newFaceLabels.size(); ++l)
+        if(faces_[l])
+            faces_[l]->label_ = newFaceLabels[l];
     std::swap(faces_, newFaces);
 
     for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
-- 
2.43.0


From 1181195b62138aafa38a7c5d07879f24c481999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:38 +0000
Subject: [PATCH 10/56] fix: sortEdgesDirectly() must not leave a broken sigma
 orbit behind when it throws

---
 src/geomap/cppmap.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 02efde1..c2b50ef 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -454,7 +454,7 @@ void GeoMap::sortEdgesDirectly()
 
         std::sort(dartAngles.begin(), dartAngles.end());
 
-        int predecessor = dartAngles[0].second;
+        // check all angles before the node's orbit is modified:
         for(unsigned int i = 1; i < dartAngles.size(); ++i)
         {
             if(dartAngles[i-1].first == dartAngles[i].first)
@@ -467,6 +467,11 @@ void GeoMap::sortEdgesDirectly()
                 s << "  edge " << edge2->label() << " (" << description(*edge2) << ")";
                 vigra_precondition(false, s.str());
             }
+        }
+
+        int predecessor = dartAngles[0].second;
+        for(unsigned int i = 1; i < dartAngles.size(); ++i)
+        {
             sigmaMapping_[predecessor] = dartAngles[i].second;
             sigmaInverseMapping_[dartAngles[i].second] = predecessor;
             predecessor = dartAngles[i].second;
-- 
2.43.0


From f0f4c2bef418c55bc5e42d0d230a99d644e1fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:39 +0000
Subject: [PATCH 11/56] fix: removeBridges() must clear its internal flag on
 bridges that were not removed

The stale REMOVE_BRIDGE flag let a later removeBridges() remove bridges
that were not in its list, and kept EdgeProtection from merging edges.
---
 src/geomap/cppmap_utils.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geomap/cppmap_utils.cxx b/src/geomap/cppmap_utils.cxx
index 06459f1..c78f737 100644
--- a/src/geomap/cppmap_utils.cxx
+++ b/src/geomap/cppmap_utils.cxx
@@ -164,7 +164,8 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
                 bridges.erase(it);
             else if(bridge->flag(UNREMOVABLE_BRIDGE))
             {
-                bridge->setFlag(UNREMOVABLE_BRIDGE, false); // clean up
+                bridge->setFlag(UNREMOVABLE_BRIDGE |
+                                GeoMap::Edge::REMOVE_BRIDGE, false); // clean up
                 bridges.erase(it);
             }
         }
@@ -172,8 +173,11 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
 
         if(!degree1Found)
         {
-            if(map.removeBridge(map.dart(bridges.front())))
+            GeoMap::Dart dart(map.dart((int)bridges.front()));
+            if(map.removeBridge(dart))
                 ++result;
+            else
+                dart.edge()->setFlag(GeoMap::Edge::REMOVE_BRIDGE, false); // clean up
             bridges.erase(bridges.begin());
         }
     }
-- 
2.43.0


From 01ea2475aacb80d4b8a7aaa03316d12c9f16a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:01 +0000
Subject: [PATCH 12/56] fix: removing or moving a node must not drop another
 node at the same position from the search index

---
 src/geomap/cppmap.cxx |  4 +---
 src/geomap/cppmap.hxx | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index c2b50ef..3b9a826 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2210,9 +2210,7 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
 void GeoMap::Node::setPosition(const Vector2 &p)
 {
     vigra_precondition(initialized(), "setPosition() of uninitialized node!");
-    map_->nodeMap_.erase(
-        map_->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                               vigra::NumericTraits<double>::epsilon()));
+    eraseFromNodeMap(map_->nodeMap_);
     position_ = p;
 
     if(!isIsolated())
diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 337c426..6d33332 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -449,6 +449,7 @@ class GeoMap::Node : boost::noncopyable
     friend class SigmaAnchor; // give access to anchor_
 
     inline void uninitialize();
+    inline void eraseFromNodeMap(NodeMap &nodeMap) const;
 
     Node(GeoMap *map, const Vector2 &position)
     : map_(map),
@@ -1311,14 +1312,23 @@ inline GeoMap::Dart GeoMap::dart(int label)
     return GeoMap::Dart(this, label);
 }
 
+inline void GeoMap::Node::eraseFromNodeMap(NodeMap &nodeMap) const
+{
+    NodeMap::iterator it(
+        nodeMap.nearest(PositionedNodeLabel(position_, label_),
+                        vigra::NumericTraits<double>::epsilon()));
+    // nearest() gives the first of several nodes at the same position
+    while(it->second.payload != label_)
+        ++it;
+    nodeMap.erase(it);
+}
+
 inline void GeoMap::Node::uninitialize()
 {
     GeoMap *map = map_;
     map_ = NULL; // DON'T MESS WITH THIS!
     --map->nodeCount_;
-    map->nodeMap_.erase(
-        map->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                              vigra::NumericTraits<double>::epsilon()));
+    eraseFromNodeMap(map->nodeMap_);
     RESET_PTR(map->nodes_[label_]); // may have effect like "delete this;"!
 }
 
-- 
2.43.0


From 1e60ddf2a59ed7b7ff14e3e2b61f5689798cd3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:21 +0000
Subject: [PATCH 13/56] fix: ScanlinesIter must not read beyond scanlines
 without any segment

---
 src/geomap/polygon.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 1d46f70..818e2c5 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1892,6 +1892,9 @@ class ScanlinesIter
         // else move until true or atEnd()
     void ensureValid()
     {
+        if(atEnd())
+            return; // no segments at all
+
         vigra_assert(
             (y < scanlines.endIndex()) && (si < scanlines[y].size()),
             "invalid Scanline or ScanlineSegment");
-- 
2.43.0


From 8957683e9e3e42f28e6b3349394853ec43ddde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:48 +0000
Subject: [PATCH 14/56] fix: convexHull must handle copies of the extremal
 point and collinear points

---
 src/geomap/polygon.hxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 818e2c5..7495b17 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -766,7 +766,12 @@ struct CCWCompare
 
     bool operator()(const Point &a, const Point &b) const
     {
-        return (a[1]-p0_[1])*(b[0]-p0_[0]) - (a[0]-p0_[0])*(b[1]-p0_[1]) > 0;
+        typename Point::value_type cross =
+            (a[1]-p0_[1])*(b[0]-p0_[0]) - (a[0]-p0_[0])*(b[1]-p0_[1]);
+        if(cross != 0)
+            return cross > 0;
+        // same direction, sort by distance from p0 (near points first):
+        return (a-p0_).squaredMagnitude() < (b-p0_).squaredMagnitude();
     }
 };
 }
@@ -797,6 +802,14 @@ void convexHull(
     // sort other points by angle from p0:
     std::vector<Point> other(poly.begin(), poly.begin() + i0);
     other.insert(other.end(), poly.begin()+i0+1, poly.end());
+    // copies of p0 (e.g. in closed polygons) do not have an angle:
+    other.erase(std::remove(other.begin(), other.end(), p0), other.end());
+    if(other.empty())
+    {
+        chull.push_back(p0);
+        chull.push_back(p0);
+        return;
+    }
     std::sort(other.begin(), other.end(), detail::CCWCompare<Point>(p0));
 
     std::vector<Point> result(poly.size()+1);
-- 
2.43.0


From 4364226467298b815cb2a9a397c6e1072dda8aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 15/56] fix: tangentDSL must not assert that it cycles when it
 does not

---
 src/geomap/vigra/dsl.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/vigra/dsl.hxx b/src/geomap/vigra/dsl.hxx
index 8588e7e..5cfe0fb 100644
--- a/src/geomap/vigra/dsl.hxx
+++ b/src/geomap/vigra/dsl.hxx
@@ -251,7 +251,7 @@ int tangentDSL(FreemanCodeIter freemanCodesBegin,
                 return 0;
         }
         --backwardIter;
-        vigra_assert(backwardIter == freemanCodesStart,
+        vigra_assert(backwardIter != freemanCodesStart,
                      "even for closed crack-edge polygons, we should not cycle!");
 
         // check whether we have two different codes now:
-- 
2.43.0


From f6d4fb2a98d9cd0c834af978a21914c006013e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 16/56] fix: a corner pixel between two vertices of a cell
 image must join their node

---
 src/cellimage/foureightsegmentation.cxx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/cellimage/foureightsegmentation.cxx b/src/cellimage/foureightsegmentation.cxx
index d89924f..976331a 100644
--- a/src/cellimage/foureightsegmentation.cxx
+++ b/src/cellimage/foureightsegmentation.cxx
@@ -722,6 +722,22 @@ void GeoMap::initCellImage(BImage & contourImage, CellType cornerType)
     // way (faceList_[0].anchor is directly initialized from this
     // position)
     cellImage(1, 1).setType(CellTypeVertex, 0);
+
+    // a corner pixel between two vertex pixels would become a loop that
+    // does not enclose anything (both vertices are diagonal neighbors,
+    // i.e. belong to the same node) -> make it part of that node
+    for(int y=1; y < cellImage.height()-1; ++y)
+    {
+        for(int x=1; x < cellImage.width()-1; ++x)
+        {
+            if(cellImage(x, y).type() == CellTypeLine &&
+               (cellImage(x-1, y).type() == CellTypeVertex ||
+                cellImage(x+1, y).type() == CellTypeVertex) &&
+               (cellImage(x, y-1).type() == CellTypeVertex ||
+                cellImage(x, y+1).type() == CellTypeVertex))
+                cellImage(x, y).setType(CellTypeVertex, 0);
+        }
+    }
 #ifndef NDEBUG
     std::cerr << "*** RUN-TIME WARNING: slowness results from missing NDEBUG flag during compilation of foureightsegmentation.cxx! ***\n";
 #endif
-- 
2.43.0


From af24e114a6a6eabfcef3ae02d671acfc88194f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 17/56] fix: mergeFaces/mergeEdges of cellimage::GeoMap must
 refuse singular darts before using their edge

---
 src/cellimage/foureightsegmentation.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cellimage/foureightsegmentation.cxx b/src/cellimage/foureightsegmentation.cxx
index 976331a..8bf137e 100644
--- a/src/cellimage/foureightsegmentation.cxx
+++ b/src/cellimage/foureightsegmentation.cxx
@@ -237,6 +237,10 @@ GeoMap::FaceInfo &GeoMap::mergeFaces(const DartTraverser & dart)
 {
     //std::cerr << "mergeFaces(" << dart << ")\n";
     validateDart(dart);
+    vigra_precondition(!dart.isSingular() &&
+                       dart.leftFaceLabel() != dart.rightFaceLabel(),
+        "GeoMap::mergeFaces(): dart is singular or edge is a bridge");
+
     // merge smaller face into larger one:
     DartTraverser removedDart = dart;
     if(dart.leftFace().bounds.area() < dart.rightFace().bounds.area())
@@ -248,9 +252,6 @@ GeoMap::FaceInfo &GeoMap::mergeFaces(const DartTraverser & dart)
     NodeInfo &node1= mergedEdge.start.startNode();
     NodeInfo &node2= mergedEdge.end.startNode();
 
-    vigra_precondition(survivor.label != mergedFace.label,
-        "GeoMap::mergeFaces(): dart is singular or edge is a bridge");
-
     // find indices of contour components to be merged
     const unsigned int contour1(findComponentAnchor(survivor, removedDart));
     const unsigned int contour2(findComponentAnchor(mergedFace, removedDart));
@@ -387,6 +388,8 @@ GeoMap::EdgeInfo &GeoMap::mergeEdges(const DartTraverser & dart)
     //std::cerr << "mergeEdges(" << dart << ")\n";
     // merge smaller edge (mergedEdge) into larger one (survivor):
     validateDart(dart);
+    vigra_precondition(!dart.isSingular(),
+        "GeoMap::mergeEdges(): dart does not point to any edge");
     DartTraverser dart1(dart);
     dart1.nextSigma();
     bool firstIsSmaller =
-- 
2.43.0


From 98296891a4c1fcbb299a53f981f7adf823f28d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 18/56] fix: a failed pyramid operation must not leave its
 record in the history

---
 src/cellimage/cellpyramid.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 57db2a0..ab563ef 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -315,19 +315,19 @@ class CellPyramid
         CellInfo *result = NULL;
         if(!composing_)
         {
+            history_.push_back(Operation(t, p));
             try
             {
-                history_.push_back(Operation(t, p));
                 result = &topLevel_.performOperation(history_.back());
-                ++topLevel_.index_;
-                if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
-                    storeCheckpoint(topLevel_);
             }
             catch(...)
             {
-                cutAbove(topLevel_.index());
+                history_.pop_back();
                 throw;
             }
+            ++topLevel_.index_;
+            if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
+                storeCheckpoint(topLevel_);
         }
         else
         {
-- 
2.43.0


From 9ebef581e9bfa42100aa00bddfdb37a7d8dd9171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 19/56] fix: CellPyramid::changeIntoComposite must reopen the
 last level

---
 src/cellimage/cellpyramid.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index ab563ef..882af45 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -438,6 +438,11 @@ class CellPyramid
             Operation tmp(last);         // copy old
             last = Operation();          // create composite
             last.opList->push_back(tmp); // and re-fill with old
+
+            // the last level is being composed again, i.e. endComposite()
+            // will finish it (in a different state than stored before)
+            checkpoints_.erase(topLevel_.index_);
+            --topLevel_.index_;
         }
         ++composing_;
     }
-- 
2.43.0


From e2c9251f1578f720d750eecf08caf3fbdd94a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 20/56] fix: removeEdgeWithEnds must refuse singular darts

---
 src/cellimage/cellpyramid.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 882af45..07eea06 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -261,6 +261,9 @@ class CellPyramid
               }
               case RemoveEdgeWithEnds:
               {
+                  vigra_precondition(!param.isSingular(),
+                      "removeEdgeWithEnds: dart does not point to any edge");
+
                   EdgeInfo &removedEdge = segmentation_.edge(param.edgeLabel());
                   NodeInfo &node1(removedEdge.start.startNode());
                   NodeInfo &node2(removedEdge.end.startNode());
-- 
2.43.0


From 3967c6323a42dabfb08c93abbc8dd5cc44edcc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:24 +0000
Subject: [PATCH 21/56] fix: singular darts of nodes with several pixels must
 report the face around their node

---
 src/cellimage/foureightsegmentation.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cellimage/foureightsegmentation.hxx b/src/cellimage/foureightsegmentation.hxx
index 72980ae..75701c3 100644
--- a/src/cellimage/foureightsegmentation.hxx
+++ b/src/cellimage/foureightsegmentation.hxx
@@ -518,6 +518,11 @@ public:
 
         CellLabel leftFaceLabel() const throw ()
         {
+            // singular darts point to the face around their node, whose
+            // other pixels may well be the next neighbors:
+            if(isSingular())
+                return neighborCirc_->label();
+
             // FIXME: will this always work when two points of the same edge are adjacent to this node ???
             return neighborCirc_[1].type() == CellTypeRegion
                       ? neighborCirc_[1].label()
@@ -526,6 +531,11 @@ public:
 
         CellLabel rightFaceLabel() const throw ()
         {
+            // singular darts point to the face around their node, whose
+            // other pixels may well be the next neighbors:
+            if(isSingular())
+                return neighborCirc_->label();
+
             // FIXME: will this always work when two points of the same edge are adjacent to this node ???
             return neighborCirc_[-1].type() == CellTypeRegion
                       ? neighborCirc_[-1].label()
-- 
2.43.0


From d6c229507b9ac235d49db40b22f9ad625d64306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:09 +0000
Subject: [PATCH 22/56] fix: FaceColorStatistics must detach its hooks when
 destroyed

Modifying the map afterwards called the hooks of the deleted object.
---
 src/geomap/facestatistics.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 5613333..7115e21 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -591,6 +591,7 @@ void FaceColorStatistics<OriginalImage>::ensureMinSampleCount(
 template<class OriginalImage>
 FaceColorStatistics<OriginalImage>::~FaceColorStatistics()
 {
+    detachHooks();
     for(unsigned int i = 0; i < functors_.size(); ++i)
         delete functors_[i];
 }
-- 
2.43.0


From 92f05dc74a6c02301e5aa33702dfcf8b4bb03fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:09 +0000
Subject: [PATCH 23/56] fix: keep the supersampling bookkeeping of
 FaceColorStatistics consistent

postMergeFaces dereferenced the array it had just released when the last
supersampled face disappeared, and associatePixels never released it.
---
 src/geomap/facestatistics.hxx | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 7115e21..b1e1027 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -230,17 +230,14 @@ class FaceColorStatistics
         if(superSampled_.get())
         {
             if((*superSampled_)[face.label()] && !mergedSS_)
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+                --superSampledCount_;
             (*superSampled_)[face.label()] = mergedSS_;
 
             if((*superSampled_)[mergedLabel])
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+                --superSampledCount_;
+
+            if(!superSampledCount_)
+                superSampled_.reset();
         }
 
         delete functors_[mergedLabel];
@@ -263,7 +260,8 @@ class FaceColorStatistics
            face.pixelArea() >= minSampleCount_)
         {
             (*superSampled_)[face.label()] = 0;
-            --superSampledCount_;
+            if(!--superSampledCount_)
+                superSampled_.reset();
 
             functors_[face.label()]->reset();
 
-- 
2.43.0


From 34bc790fd62c15838ea05a7e33d416f8475f8f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:09 +0000
Subject: [PATCH 24/56] fix: copied FaceColorStatistics must own their functors

The copy shared (and deleted) the functors of the original object.
---
 src/geomap/facestatistics.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index b1e1027..8291f35 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -528,7 +528,7 @@ template<class OriginalImage>
 FaceColorStatistics<OriginalImage>::FaceColorStatistics(
     const FaceColorStatistics &other)
 : originalImage_(other.originalImage_),
-  functors_(other.functors_),
+  functors_(other.functors_.size(), NULL),
   minSampleCount_(other.minSampleCount_),
   superSampled_(other.superSampled_.get()
                 ? (new std::vector<unsigned char>(*other.superSampled_))
@@ -536,6 +536,9 @@ FaceColorStatistics<OriginalImage>::FaceColorStatistics(
   superSampledCount_(other.superSampledCount_),
   maxDiffNorm_(other.maxDiffNorm_)
 {
+    for(unsigned int i = 0; i < functors_.size(); ++i)
+        if(other.functors_[i])
+            functors_[i] = new Functor(*other.functors_[i]);
 }
 
 template<class OriginalImage>
-- 
2.43.0


From 99da870e649171fb9c60a1c60b2e634ee7060621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:09 +0000
Subject: [PATCH 25/56] fix: merged faces with enough pixels must not stay
 supersampled

Faces sampled at different resolutions were never rescanned, even if both
together had at least minSampleCount pixels.
---
 src/geomap/facestatistics.hxx | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 8291f35..5da2294 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -175,6 +175,17 @@ class FaceColorStatistics
             unsigned char ssLeft((*superSampled_)[dart.leftFaceLabel()]);
             unsigned char ssRight((*superSampled_)[dart.rightFaceLabel()]);
 
+            if(ssLeft && ssRight &&
+               dart.leftFace()->pixelArea() + dart.rightFace()->pixelArea()
+               >= minSampleCount_)
+            {
+                merged_.reset();
+                rescanFace(*dart.leftFace(), merged_);
+                rescanFace(*dart.rightFace(), merged_);
+                mergedSS_ = 0;
+                return true;
+            }
+
             if(ssLeft != ssRight)
             {
                 if(ssLeft < ssRight)
@@ -193,23 +204,7 @@ class FaceColorStatistics
                 }
                 return true;
             }
-            else if(ssLeft) // ssLeft == ssRight
-            {
-                mergedSS_ = ssLeft;
-
-                if(dart.leftFace()->pixelArea() + dart.rightFace()->pixelArea()
-                   >= minSampleCount_)
-                {
-                    merged_.reset();
-                    rescanFace(*dart.leftFace(), merged_);
-                    rescanFace(*dart.rightFace(), merged_);
-                    mergedSS_ = 0;
-
-                    return true;
-                }
-            }
-            else
-                mergedSS_ = 0;
+            mergedSS_ = ssLeft; // == ssRight
         }
 
         merged_ = *functors_[dart.leftFaceLabel()];
-- 
2.43.0


From ef2f32698c0f36c6011c84b6ade7657ffc07e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:23 +0000
Subject: [PATCH 26/56] fix: merging faces without samples must not produce NaN
 statistics

Merging two empty functors divides by zero; the NaN persisted in the
average of the face, whatever pixels were associated later.
---
 src/geomap/facestatistics.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 5da2294..d2b2a5a 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -208,7 +208,8 @@ class FaceColorStatistics
         }
 
         merged_ = *functors_[dart.leftFaceLabel()];
-        merged_(*functors_[dart.rightFaceLabel()]);
+        if(functors_[dart.rightFaceLabel()]->count())
+            merged_(*functors_[dart.rightFaceLabel()]);
         return true;
     }
 
-- 
2.43.0


From 374f47eeed79deb369c7dc910bcd4b3a131260a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:13 +0000
Subject: [PATCH 27/56] fix: EdgeProtection must detach its hooks when it is
 destroyed

The hooks are bound to this, so a map that outlived its protection
called a destroyed object.
---
 src/geomap/cppmap_utils.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index d856d9e..856adb9 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -49,6 +49,11 @@ class EdgeProtection : boost::noncopyable
             attachHooks(map);
     }
 
+    ~EdgeProtection()
+    {
+        detachHooks();
+    }
+
     const boost::shared_ptr<GeoMap> map() const
     {
         return map_;
-- 
2.43.0


From 1d3fd220c6025fb932765b1e0819877ef7d7cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:49 +0000
Subject: [PATCH 28/56] fix: unpickling a detached EdgeProtection must not
 attach to a null map

---
 src/python_bindings/cppmapmodule_utils.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index efe4021..84df26f 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -62,7 +62,10 @@ struct EdgeProtectionPickleSuite : bp::pickle_suite
 
     static void setstate(EdgeProtection &ep, bp::tuple state)
     {
-        ep.attachHooks(bp::extract<boost::shared_ptr<GeoMap> >(state[0])());
+        boost::shared_ptr<GeoMap> map =
+            bp::extract<boost::shared_ptr<GeoMap> >(state[0])();
+        if(map)
+            ep.attachHooks(map);
     }
 };
 
-- 
2.43.0


From f3938b7bbce96afa91dcbeb6fade381a73d8d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:13 +0000
Subject: [PATCH 29/56] fix: maps without edges must be picklable

The infinite face of such a map has no contour to take an anchor from.
---
 src/python_bindings/cppmapmodule.cxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 84608fa..1cc7680 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -651,7 +651,10 @@ struct GeoMapPickleSuite : bp::pickle_suite
         for(GeoMap::FaceIterator it = map.facesBegin(); it.inRange(); ++it)
         {
             faceFlags.append((*it)->flags() & ~0xf0000000U);
-            faceAnchors.append((*it)->contour().label());
+            // (the infinite face may have no contours at all)
+            faceAnchors.append(
+                (*it)->contoursBegin() != (*it)->contoursEnd()
+                ? (*it)->contour().label() : 0);
             faceLabels.append((*it)->label());
         }
 
@@ -702,12 +705,13 @@ struct GeoMapPickleSuite : bp::pickle_suite
         std::vector<CellLabel> newFaceLabels(map.maxFaceLabel());
         for(i = 0; i < map.faceCount(); ++i)
         {
-            GeoMap::Dart anchor =
-                map.dart(bp::extract<int>(faceAnchors[i])());
-            anchor.leftFace()->setFlag(
+            int anchor = bp::extract<int>(faceAnchors[i])();
+            GeoMap::FacePtr face =
+                anchor ? map.dart(anchor).leftFace() : map.face(0);
+            face->setFlag(
                 bp::extract<CellFlags>(faceFlags[i])() & ~(CellFlags)0xf0000000);
             if(hasLabels)
-                newFaceLabels[anchor.leftFaceLabel()] =
+                newFaceLabels[face->label()] =
                     bp::extract<CellLabel>(faceLabels[i])();
         }
 
-- 
2.43.0


From 7b343dcba3a33cc5412b31d0c20f49bf9b105833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:13 +0000
Subject: [PATCH 30/56] fix: BoundingBox.begin()/end() must return the corner
 from Python

Vector2 has a converter but no Python class, so references raised a TypeError.
---
 src/python_bindings/polygon.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index bbb0bca..4b6c3e8 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1895,9 +1895,9 @@ void defPolygon()
         .def(init<const Vector2 &, const Vector2 &>(args("begin", "end")))
         .def("__init__", make_constructor(&createBoxFromRect2D<BoundingBox>))
         .def("begin", (const Vector2 &(BoundingBox::*)() const)
-             &BoundingBox::begin, return_internal_reference<>())
+             &BoundingBox::begin, return_value_policy<copy_const_reference>())
         .def("end", (const Vector2 &(BoundingBox::*)() const)
-             &BoundingBox::end, return_internal_reference<>())
+             &BoundingBox::end, return_value_policy<copy_const_reference>())
         .def("setBegin", &BoundingBox::setBegin, arg("begin"))
         .def("setEnd", &BoundingBox::setEnd, arg("end"))
         .def("moveTo", &BoundingBox::moveTo, arg("newBegin"))
-- 
2.43.0


From 9fc5d8d032e7afa361678e622709c1486c7e62d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:44 +0000
Subject: [PATCH 31/56] fix: parallel darts leaving to the left must form one
 group when no other dart separates them

sortEdgesInternal() rotates the sorted darts if the first and last one are
less than minAngle apart, but never looked at the gap after the first dart,
so that a group consisting of all darts but for the gap was torn apart.
---
 src/geomap/cppmap.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 3b9a826..ca8500c 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -550,8 +550,9 @@ void sortEdgesInternal(const Vector2 &currentPos,
     {
         // first and last dart are less than minAngle apart,..
         DPAI prev(firstGroupStart);
-        while(--firstGroupStart > dpBegin)
+        while(firstGroupStart != dpBegin)
         {
+            --firstGroupStart;
             // ..determine last decision point..
             if(prev->angle - firstGroupStart->angle >= minAngle)
             {
-- 
2.43.0


From e0fb6c4b3553c0da748e3206bf6c7fb3e03805a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:06 +0000
Subject: [PATCH 32/56] fix: drawLabelImage must not overwrite enclosed faces
 nor forget edges

A face is filled including its holes, so it overwrote the faces inside
its holes when its label was larger; edges not on the outer contour of
a finite face were not drawn, others were overwritten again by faces
drawn later.
---
 src/geomap/cppmap_utils.hxx | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index 856adb9..1de9419 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -35,6 +35,7 @@
 #include <boost/bind.hpp>
 #include <vector>
 #include <list>
+#include <map>
 
 class EdgeProtection : boost::noncopyable
 {
@@ -151,19 +152,32 @@ void drawLabelImage(const GeoMap &geomap,
                     DestIterator dul, SizeType ds, DestAccessor a,
                     bool negativeEdgeLabels = true)
 {
+    // faces are filled including their holes, so enclosing faces
+    // (with larger outer contours) must be drawn first:
+    typedef std::multimap<double, GeoMap::ConstFacePtr> FacesByArea;
+    FacesByArea faces;
     for(GeoMap::ConstFaceIterator
             it = geomap.finiteFacesBegin(); it.inRange(); ++it)
+        faces.insert(std::make_pair(
+            -contourArea(*(*it)->contoursBegin()), *it));
+
+    for(FacesByArea::const_iterator
+            it = faces.begin(); it != faces.end(); ++it)
     {
         std::auto_ptr<vigra::Scanlines> scanlines =
-            (*it)->scanLines();
-        fillScannedPoly(*scanlines, (int)(*it)->label(),
+            it->second->scanLines();
+        fillScannedPoly(*scanlines, (int)it->second->label(),
                         dul, ds, a);
-        if(negativeEdgeLabels)
-            vigra::drawScannedPoly(*(*it)->scanLines(), -1,
-                                   dul, ds, a);
     }
 
-    if(!negativeEdgeLabels)
+    if(negativeEdgeLabels)
+    {
+        for(GeoMap::ConstEdgeIterator
+                it = geomap.edgesBegin(); it.inRange(); ++it)
+            vigra::drawScannedPoly((*it)->scanLines(), -1,
+                                   dul, ds, a);
+    }
+    else
     {
         vigra::Rect2D imageROI(vigra::Size2D(ds[0], ds[1]));
 
-- 
2.43.0


From 0e66c0bc12374f4233a2d591d53261b46d7269aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:58 +0000
Subject: [PATCH 33/56] fix: faces must enclose holes whose area is nearly as
 large as their own

---
 src/geomap/cppmap.cxx | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index ca8500c..28d0a06 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1070,14 +1070,25 @@ void GeoMap::initContours()
 
 struct AbsAreaCompare
 {
+        // sort by decreasing absolute area; for contours with equal area
+        // (up to rounding errors, which grow with the square of the
+        // coordinates), prefer the exterior one
+    static double sortKey(GeoMap::FacePtr f)
+    {
+        double area = f->area();
+        if(area >= 0)
+            return area;
+        const GeoMap::Face::BoundingBox &bbox(f->boundingBox());
+        double maxCoord = std::max(
+            std::max(std::fabs(bbox.begin()[0]), std::fabs(bbox.begin()[1])),
+            std::max(std::fabs(bbox.end()[0]), std::fabs(bbox.end()[1])));
+        return -area + 1e-10*maxCoord*maxCoord;
+    }
+
         // FIXME: actually, const pointers would suffice:
     bool operator()(GeoMap::FacePtr f1, GeoMap::FacePtr f2) const
     {
-        double a1 = f1->area(), a2 = f2->area();
-        double absdiff = std::fabs(a1) - std::fabs(a2);
-        if(std::fabs(absdiff) < 1e-2 && ((a1 < 0) != (a2 < 0)))
-            return (a1 < 0); // for faces with equal area, prefer the exterior one
-        return absdiff > 0; // else, prefer face with larger absolute area
+        return sortKey(f1) > sortKey(f2);
     }
 };
 
-- 
2.43.0


From ca2c22fa242b75faa9e2ed69c00118f63cd00372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:49 +0000
Subject: [PATCH 34/56] fix: a vetoed mergeEdges() must not move contour
 anchors

---
 src/geomap/cppmap.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 28d0a06..d787b6e 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1833,6 +1833,11 @@ GeoMap::EdgePtr GeoMap::mergeEdges(const GeoMap::Dart &dart)
     GeoMap::Node &mergedNode(*d2.startNode());
     GeoMap::Edge &mergedEdge(*d2.edge());
 
+    if(!preMergeEdgesHook(d1))
+        return NULL_PTR(GeoMap::Edge);
+    if(!removeNodeHook(mergedNode))
+        return NULL_PTR(GeoMap::Edge);
+
     if(mapInitialized())
     {
         GeoMap::Face *faces[2];
@@ -1853,11 +1858,6 @@ GeoMap::EdgePtr GeoMap::mergeEdges(const GeoMap::Dart &dart)
         }
     }
 
-    if(!preMergeEdgesHook(d1))
-        return NULL_PTR(GeoMap::Edge);
-    if(!removeNodeHook(mergedNode))
-        return NULL_PTR(GeoMap::Edge);
-
     if(labelImage_)
     {
         rawAddEdgeToLabelImage(mergedEdge.scanLines(), *labelImage_, 1);
-- 
2.43.0


From 2e82d43c616aa9fa1d2452af929e0c7cffc6680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 35/56] fix: moving a DartPosition backwards left the dart's
 geometry

prevSegmentInternal() produced an empty segment (both ends were the same
point), so gotoPrevSegment() and gotoArcLength() to a smaller arc length
ended up on wrong positions, and it was not possible to return from the
end of a dart with one segment. Failing movements left position and arc
length of the previous segment.
---
 src/geomap/cppmap.hxx | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 6d33332..d1cee30 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1550,7 +1550,11 @@ class DartPosition
     {
         while(arcLength < arcLength_)
             if(!prevSegmentInternal())
+            {
+                position_ = p1_;
+                partialArcLength_ = 0.0;
                 return false;
+            }
         do
         {
             double rest = arcLength - arcLength_;
@@ -1614,6 +1618,7 @@ class DartPosition
             if(!nextSegmentInternal())
             {
                 position_ = p2_;
+                partialArcLength_ = 0.0;
                 return false;
             }
         }
@@ -1654,17 +1659,24 @@ class DartPosition
 
     bool prevSegmentInternal()
     {
-        if(!segmentIndex_)
-            return false;
+        // coming from the end, we return to the last segment
+        if(!atEnd())
+        {
+            if(!segmentIndex_)
+                return false;
+            --segmentIndex_;
+        }
         // now I assume that pointIter_ can step backwards and still
         // is inRange():
         pointIter_.reverse();
-        p2_ = p1_;
-        ++pointIter_;
+        ++pointIter_; // now points to p2_ again (the start of the old segment)
+        p2_ = *pointIter_;
+        DartPointIter segmentStart(pointIter_);
+        ++segmentStart;
+        p1_ = *segmentStart;
         pointIter_.reverse();
-        p1_ = *pointIter_;
-        arcLength_ -= (p2_ - p1_).magnitude();
-        --segmentIndex_;
+        arcLength_ = segmentIndex_
+                     ? arcLength_ - (p2_ - p1_).magnitude() : 0.0;
         return true;
     }
 
-- 
2.43.0


From 10b2e86581cfd4c5b1c4afe62fdc3429fff1facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:08 +0000
Subject: [PATCH 36/56] fix: del polygon[-1] erased beyond the end of the
 polygon

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 4b6c3e8..24ee2ef 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -188,7 +188,7 @@ void insert(Polygon & p, int pos, typename Polygon::const_reference x)
 template<class Polygon>
 void erase(Polygon & p, int pos)
 {
-    checkPythonIndex(pos, p.size() + 1);
+    checkPythonIndex(pos, p.size());
     p.erase(p.begin() + pos);
 }
 
-- 
2.43.0


From 30281372639b4b2d6e157f93d54d8b28009730f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:08 +0000
Subject: [PATCH 37/56] fix: intersectLine() ended parts at the wrong position

---
 src/python_bindings/polygon.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 24ee2ef..7df73b1 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1806,6 +1806,7 @@ list intersectLine(
         }
 
         currentPart.push_back(polygon[pointIndex]);
+        prevDist = dist;
     }
 
     if(inside)
-- 
2.43.0


From a81063a7a010912526ed37b55a2013d7e0976368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:08 +0000
Subject: [PATCH 38/56] fix: functions drawing scanlines could not be called
 from Python

---
 src/python_bindings/polygon.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 7df73b1..466ab72 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -308,7 +308,7 @@ ScanlinesIter createScanlinesIter(const Scanlines &sl)
 
 unsigned int pyFillScannedPoly(
     const Scanlines &scanlines,
-    NumpyFImage &target,
+    NumpyFImage target,
     GrayValue value)
     //const Pixel &value)
 {
@@ -320,7 +320,7 @@ unsigned int pyFillScannedPoly(
 
 unsigned int pyDrawScannedPoly(
     const Scanlines &scanlines,
-    NumpyFImage &target,
+    NumpyFImage target,
     float value)
 {
     return drawScannedPoly(scanlines, value,
@@ -1669,7 +1669,7 @@ struct ParabolaFit
 
 void markEdgeInLabelImage(
     const Scanlines &scanlines,
-    NumpyFImage &labelImage)
+    NumpyFImage labelImage)
 {
     // clip to image range vertically:
     int y = std::max(0, scanlines.startIndex()),
@@ -1702,7 +1702,7 @@ void markEdgeInLabelImage(
 
 list removeEdgeFromLabelImage(
     const Scanlines &scanlines,
-    NumpyFImage &labelImage,
+    NumpyFImage labelImage,
     GrayValue substituteLabel)
 {
     list result;
-- 
2.43.0


From 1f93be79a1ee0c445c3dc215721f9d915a59006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:08 +0000
Subject: [PATCH 39/56] fix: closed() accessed nonexistent points of an empty
 polygon

---
 src/geomap/polygon.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 7495b17..d9f08e8 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -303,10 +303,11 @@ class Polygon : public PointArray<POINT>
         return partialArea_;
     }
 
-        /// Returns true iff the last and first points are equal.
+        /// Returns true iff the last and first points are equal
+        /// (always false for polygons without points).
     bool closed() const
     {
-        return this->points_[this->size()-1] == this->points_[0];
+        return this->size() && this->points_[this->size()-1] == this->points_[0];
     }
 
         /**
-- 
2.43.0


From fb5f7edbb72f7a9d3c220d0adfc96749446f0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:08 +0000
Subject: [PATCH 40/56] fix: maximum of negative values in PolylineStatistics

---
 src/python_bindings/statistics.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 12f6b33..4541875 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -51,7 +51,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {}
 
 //     PolylineStatistics(const PointArray<Vector2> &poly, object siv)
@@ -73,7 +73,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
-- 
2.43.0


From da4e3316cc34604561cc4ebe4cc9a815c09d5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:08 +0000
Subject: [PATCH 41/56] fix: QuantileStatistics used an uninitialised flag
 after unpickling

---
 src/python_bindings/statistics.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 4541875..e128387 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -152,10 +152,12 @@ class QuantileStatistics : public PolylineStatistics
 
   public:
     QuantileStatistics()
+    : sorted_(false)
     {}
 
     QuantileStatistics(const PointArray<Vector2> &poly,
                        const SplineImageView<5, GrayValue> &siv)
+    : sorted_(false)
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
@@ -235,6 +237,7 @@ class QuantileStatisticsPickleSuite : public boost::python::pickle_suite
         PolylineStatisticsPickleSuite::setstate(w, state);
         list segments = extract<list>(state[-1])();
         w.segments_.resize(len(segments));
+        w.sorted_ = false;
         for(unsigned int i = 0; i < w.segments_.size(); ++i)
         {
             //tuple valueLength(extract<tuple>(segments[i])());
-- 
2.43.0


From c573413c54651724c5fad82714ae87e40ff2d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:24 +0000
Subject: [PATCH 42/56] fix: crackConnectionImage() left out connections to the
 left and upwards

---
 src/python_bindings/cppmapmodule_utils.cxx | 23 +++++++---------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index 84df26f..6e451c7 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -92,27 +92,18 @@ pyCrackConnectionImage(NumpyFImage const &labels)
 
     crackConnectionImage(srcImageRange(labels), destImage(result));
 
-    NumpyFImage::traverser
-        end = result.traverser_end() - TinyVector<int, 2>(Diff2D(1, 1)),
-        row = result.traverser_begin();
-    for(; row.iteratorForDimension(1) < end.iteratorForDimension(1); row.operator++(1))
+    // mark the opposite ends of all connections, too:
+    for(int y = 0; y < result.shape(1); ++y)
     {
-      NumpyFImage::traverser it = row;
-        for(; it.iteratorForDimension(0) < end.iteratorForDimension(0); it.operator++(0))
+        for(int x = 0; x < result.shape(0); ++x)
         {
-            if((int)*it & 1)
-                it[TinyVector<int,2>(Diff2D(1, 0))] = (int)it[TinyVector<int,2>(Diff2D(1, 0))] | 4;
-            if((int)*it & 2)
-                it[TinyVector<int,2>(Diff2D(0, 1))] = (int)it[TinyVector<int,2>(Diff2D(0, 1))] | 8;
+            if((int)result(x, y) & 1)
+                result(x+1, y) = (int)result(x+1, y) | 4;
+            if((int)result(x, y) & 2)
+                result(x, y+1) = (int)result(x, y+1) | 8;
         }
-        if((int)*it & 2)
-            it[TinyVector<int,2>(Diff2D(0, 1))] = (int)it[TinyVector<int,2>(Diff2D(0, 1))] | 8;
     }
 
-    for(; row.iteratorForDimension(0) < end.iteratorForDimension(0); row.operator++(0))
-        if((int)*row & 1)
-            row[TinyVector<int,2>(Diff2D(1, 0))] = (int)row[TinyVector<int,2>(Diff2D(1, 0))] | 4;
-
     return result;
 }
 
-- 
2.43.0


From f941d7ad74bef32b3cd9463926ac9d3bf6da377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:15 +0000
Subject: [PATCH 43/56] fix: swapping two Python Polygons left one with stale
 properties

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 466ab72..466ed08 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1877,8 +1877,8 @@ void defPolygon()
         .def("partialArea", &PythonPolygon::partialArea)
         .def("boundingBox", &PythonPolygon::boundingBox)
         .def("contains", &PythonPolygon::contains)
-        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
         .def("swap", (void (PythonPolygon::*)(Vector2Array &))&PythonPolygon::swap)
+        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
         .def("reverse", &PythonPolygon::reverse)
         .def("nearestPoint", &PythonPolygon::nearestPoint)
         .def("invalidateProperties", &PythonPolygon::invalidateProperties)
-- 
2.43.0


From 6c11d9b3d25b5a386853645ed1da16b37a036661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:49 +0000
Subject: [PATCH 44/56] fix: resamplePolygonGaussianFilter() could hang on
 closed polygons

When the filter reaches around a closed polygon a second time, the points
of the second round were given the arc lengths of the first, such that the
end of the filter was never reached.
---
 src/geomap/polygon.hxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index d9f08e8..bad5bd1 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1414,16 +1414,13 @@ singleGaussianConvolvePolygonCyclic(
     ValueType sum(vigra::NumericTraits<ValueType>::zero());
     double norm = 0.0;
 
-    int size = arcLengthList.size() - 1,
-        lastIndex = size - 1;
+    int size = arcLengthList.size() - 1;
     double totalLength = arcLengthList[size];
 
     for(int j = i; true; ++j)
     {
         int k = j % size;
-        double pos = j > lastIndex
-                        ? arcLengthList[k] + totalLength
-                        : arcLengthList[k];
+        double pos = arcLengthList[k] + (j / size) * totalLength;
         ValueType point = pointList[k];
         double diff = pos - arcLengthPos;
         if(diff > g.radius())
-- 
2.43.0


From 0087c51200033108ae4b7f11aaced8b36e94b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:47 +0000
Subject: [PATCH 45/56] Revert "fix: maximum of negative values in
 PolylineStatistics"

This reverts fb5f7ed: no defect, vigra's NumericTraits<double>::min() is the
most negative value.
---
 src/python_bindings/statistics.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index e128387..becfc7c 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -51,7 +51,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(-vigra::NumericTraits<double>::max())
+      max_(vigra::NumericTraits<double>::min())
     {}
 
 //     PolylineStatistics(const PointArray<Vector2> &poly, object siv)
@@ -73,7 +73,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(-vigra::NumericTraits<double>::max())
+      max_(vigra::NumericTraits<double>::min())
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
-- 
2.43.0


From 5149acb1b772dc1d3e97412ceaba70e9c33e237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 46/56] fix: appendTangentList can extend a non-empty list

The last element of the list is an (arc length, angle) pair, so
extracting a number from it always raised a TypeError.
---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 466ed08..700a33b 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1445,7 +1445,7 @@ double appendTangentList(
 {
     ContinuousDirection makeContinuous;
     if(len(tangents1))
-        makeContinuous.prevAngle = extract<double>(tangents1[-1]);
+        makeContinuous.prevAngle = extract<double>(tangents1[-1][1])();
 
     return appendTangentList(tangents1, arcLengthOffset,
                              tangents2, offset, makeContinuous);
-- 
2.43.0


From ff8e81070e8c780cc66c127a87a8203e9c8c63d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 47/56] fix: curvatureList refuses dx < 1 like tangentList

With dx = 0 the loop over the first points ran beyond the polygon.
---
 src/python_bindings/polygon.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 700a33b..88c39d0 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -339,6 +339,13 @@ Vector2 pyCentroid(const Polygon &p)
 template<class Array>
 list curvatureList(const Array &p, int dx = 5, unsigned int skip = 0)
 {
+    if(dx < 1)
+    {
+        PyErr_SetString(PyExc_ValueError,
+            "curvatureList: dx too small (must be >= 1)");
+        throw_error_already_set();
+    }
+
     if(p.size() < 2*dx + 2*skip)
     {
         PyErr_SetString(PyExc_ValueError,
-- 
2.43.0


From ac4440340da42c0689b277cf4d02a70330aa2676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 48/56] fix: border treatment of gaussianConvolveByArcLength

Derivatives near the ends of a list repeat the value at that end, as
documented; they used the value at the opposite end (and, at the end of
the list, with the wrong sign), so that even constant values had
non-zero derivatives, and second derivatives depended on both ends
everywhere.
---
 src/python_bindings/polygon.cxx | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 88c39d0..0d86c14 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -479,7 +479,9 @@ tuple singleGaussianConvolveAtArcLength(
 
     ValueType sum(vigra::NumericTraits<ValueType>::zero());
 
-    double lnorm = 0.0;
+    // lnorm: sum of the weights from arcLengthPos to the end of the
+    // list (including the center), rnorm: same for the beginning
+    double lnorm = 0.0, center = 0.0;
     for(int j = i; j < len(arcLengthList); ++j)
     {
         tuple posCurv((extract<tuple>(arcLengthList[j])()));
@@ -490,6 +492,8 @@ tuple singleGaussianConvolveAtArcLength(
         double w(g(dist));
         sum += w*curv;
         lnorm += w;
+        if(j == i && dist == 0.0)
+            center = w;
     }
 
     double rnorm = 0.0;
@@ -509,16 +513,17 @@ tuple singleGaussianConvolveAtArcLength(
         sum /= (lnorm+rnorm);
     else if(g.derivativeOrder() & 1)
     {
-        double disparity = std::fabs(rnorm) - std::fabs(lnorm);
-        if(disparity > 0)
-            sum += disparity * extract<ValueType>(arcLengthList[0][1])();
+        // the smaller half of the filter has been cut off:
+        double missing = -(lnorm + rnorm);
+        if(std::fabs(rnorm) > std::fabs(lnorm))
+            sum += missing * extract<ValueType>(arcLengthList[-1][1])();
         else
-            sum += -disparity * extract<ValueType>(arcLengthList[-1][1])();
+            sum += missing * extract<ValueType>(arcLengthList[0][1])();
     }
     else
     {
-        sum += -lnorm * extract<ValueType>(arcLengthList[0][1])();
-        sum += -rnorm * extract<ValueType>(arcLengthList[-1][1])();
+        sum += (center/2 - lnorm) * extract<ValueType>(arcLengthList[-1][1])();
+        sum += (-center/2 - rnorm) * extract<ValueType>(arcLengthList[0][1])();
     }
 
     return make_tuple(arcLengthPos, sum);
-- 
2.43.0


From 7d94773a38c5f9f128531df8d166c509f3d4b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:23 +0000
Subject: [PATCH 49/56] fix: normalized Gaussian tangents of the first points

The index of neighbours before the first point was computed with
unsigned integers, i.e. it wrapped around and any call crashed where
pointers are longer than integers.
---
 src/python_bindings/polygon.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 0d86c14..634d6c7 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -861,7 +861,7 @@ list tangentListNormalizedGaussian(const Array1 &points, const Array2 &confidenc
 
     list result;
     ContinuousDirection makeContinuous;
-    for(unsigned int i = 0; i < size; ++i)
+    for(int i = 0; i < (int)size; ++i)
     {
         Point  sp = p[i].confidence*p[i].point, spp = Point(0.0, 0.0);
         double sw = p[i].confidence, swp = 0.0;
@@ -1043,7 +1043,7 @@ list tangentListNormalizedGaussianOptimal(const Array1 &points, const Array2 &co
 
     list result;
     ContinuousDirection makeContinuous;
-    for(unsigned int i = 0; i < size; ++i)
+    for(int i = 0; i < (int)size; ++i)
     {
         double q3 = norm(estimateThirdDerivative<Point>(p, p + size, i, dist));
         double scale = std::pow(0.75/sqrt(M_PI)/sq(p[i].confidence*q3), 1.0/7.0);
@@ -1101,7 +1101,7 @@ list tangentListNormalizedGaussianVariableScale(
 
     list result;
     ContinuousDirection makeContinuous;
-    for(unsigned int i = 0; i < size; ++i)
+    for(int i = 0; i < (int)size; ++i)
     {
         double scale = scales[i];
         double s2 = scale*scale;
-- 
2.43.0


From 9acfdebd1d4e52ecbb431da3e2948e0d50ee06af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:24 +0000
Subject: [PATCH 50/56] fix: third derivative of polygons looks twice as far
 back, too

The point at -2*dist was extrapolated from the segment at -dist.
---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 634d6c7..d56277b 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -967,7 +967,7 @@ Point estimateThirdDerivative(Iterator points, Iterator end, int index, double d
     for(; k>-size; --k)
     {
         d = points[k].arcLength - a0;
-        if(d < -dist)
+        if(d < -2.0*dist)
             break;
     }
     vigra_invariant(k>-size,
-- 
2.43.0


From b1f0eac979ec64f5a6100243aa4ed60b9fd726f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:32 +0000
Subject: [PATCH 51/56] fix: curvature of a polygon that turns back

Rounding may make the cosine slightly larger than one, in which case the
curvature was not a number.
---
 src/python_bindings/polygon.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index d56277b..e81c0a5 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -382,7 +382,8 @@ list curvatureList(const Array &p, int dx = 5, unsigned int skip = 0)
         double gamma = (a2+b2-c2) / (2*a*b), delta;
         if(gamma > -1.0)
         {
-            delta = M_PI - acos(gamma);
+            // rounding may lead to gamma > 1.0 if the polygon turns back
+            delta = M_PI - acos(std::min(gamma, 1.0));
             if((s1[0]*s3[1] - s3[0]*s1[1]) < 0)
                 result.append(make_tuple(pos, -2*delta / (a+b)));
             else
-- 
2.43.0


From c24d88f85e3366e388a248ad1e91c48b5fdfcb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 52/56] fix: polygonSplineControlPoints() lost the knots on the
 last segment

The knots lying on the last segment of the polygon were never inserted, so
that their indices remained zero and the control points were garbage.
---
 src/geomap/polygon.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index bad5bd1..43c0634 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1591,6 +1591,13 @@ void polygonSplineControlPoints(
             ++l;
         }
     }
+    for(; l < segmentCount; ++l)
+    {
+        augmentedPoly.push_back(poly.interpolate(
+            size-2, (l - arcLength[size-2]) / (segmentCount - arcLength[size-2])));
+        augmentedArcLength.push_back(l);
+        splineIndices[l] = augmentedPoly.size()-1;
+    }
     augmentedPoly.push_back(poly[size-1]);
     augmentedArcLength.push_back(segmentCount);
     splineIndices[segmentCount] = augmentedPoly.size()-1;
-- 
2.43.0


From 36003d13a0835c549a1c753c35e815bb4efc19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 53/56] fix: polygonSplineControlPoints() of closed polygons
 with few segments

With less than seven segments, several B-spline values belong to the same
control point and must be summed up.
---
 src/geomap/polygon.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 43c0634..cf7b5b2 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1718,7 +1718,7 @@ void polygonSplineControlPoints(
         for(int k=0; k<solutionSize; ++k)
         {
             for(int l=-3; l<=3; ++l)
-                m(k, (k+l+solutionSize) % solutionSize) = spline7(l);
+                m(k, (k+l+solutionSize) % solutionSize) += spline7(l);
             rhs(k, 0) = integrals[k][0];
             rhs(k, 1) = integrals[k][1];
         }
-- 
2.43.0


From 87ec23288b6d53af95a6c6f71f1f453f335c8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:28 +0000
Subject: [PATCH 54/56] fix: polygonSplineControlPoints() read beyond its
 arrays with segmentCount < 3

---
 src/geomap/polygon.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index cf7b5b2..57ef455 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1555,6 +1555,8 @@ void polygonSplineControlPoints(
     int size = poly.size();
     vigra_precondition(size >= 4,
         "polygonSplineControlPoints(): Polygon must have at least 4 points.");
+    vigra_precondition(segmentCount >= 3,
+        "polygonSplineControlPoints(): At least 3 segments are needed.");
 
     bool isOpenPolygon = !poly.closed();
 
-- 
2.43.0


From f3b6cb04bf9669d15d2292a4cda192d4fa616423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:42 +0000
Subject: [PATCH 55/56] fix: unpickled Rect2D differed from the pickled one

Two points are converted to tuples, which are taken for the upper left point
and the size.
---
 src/python_bindings/pythondiff2d.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/pythondiff2d.cxx b/src/python_bindings/pythondiff2d.cxx
index 8d84419..86dec43 100644
--- a/src/python_bindings/pythondiff2d.cxx
+++ b/src/python_bindings/pythondiff2d.cxx
@@ -84,7 +84,7 @@ struct Rect2DPickleSuite : python::pickle_suite
 {
     static python::tuple getinitargs(Rect2D const& r)
     {
-        return python::make_tuple(r.upperLeft(), r.lowerRight());
+        return python::make_tuple(r.left(), r.top(), r.right(), r.bottom());
     }
 };
 
-- 
2.43.0


From 5649485f037e10cc676752b0c1db0d3307bfadd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:42 +0000
Subject: [PATCH 56/56] fix: meshIter() yielded points outside of empty
 rectangles

---
 src/python_bindings/pythondiff2d.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/pythondiff2d.cxx b/src/python_bindings/pythondiff2d.cxx
index 86dec43..2a9bbb1 100644
--- a/src/python_bindings/pythondiff2d.cxx
+++ b/src/python_bindings/pythondiff2d.cxx
@@ -191,7 +191,7 @@ class MeshGridIterator
             point_.x = rect_.left();
             point_.y += stride_.y;
          }
-         if(point_.y >= rect_.bottom())
+         if(rect_.isEmpty() || point_.y >= rect_.bottom())
          {
             PyErr_SetString(PyExc_StopIteration, "MeshGridIterator.next(): iterator exhausted.");
             python::throw_error_already_set();
-- 
2.43.0

