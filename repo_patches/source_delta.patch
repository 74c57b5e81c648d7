From 7352733dfe7fe6793db98878bb1fcd98f6d14627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:16 +0000
Subject: [PATCH 01/36] fix: split_edge_with_vertex builds the four triangles
 around the split edge

---
 src/Mesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 8d8ebee..3342242 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -9,7 +9,7 @@
 #include "Transform.h"
 
 #define swap(a,b) { auto tmp=a; a=b; b=tmp; }  
-#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=a; }  
+#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=tmp; }  
 
 ///////////////////////////////////////////////////////////////////////////
 Mesh::Mesh()
@@ -274,14 +274,14 @@ void Mesh::split_edge_with_vertex(int iTriangle1, int iTriangle2, int iVertex1,
 
 	//split triangle2
 	_pKernel->get_triangle_vertices(iTriangle2, iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	assert(iV2 == iVertex2);
+	assert(iV1 == iVertex2);
 
-	_pKernel->add_triangle(iV2, iVertexSplit, iV3);
-	_pKernel->add_triangle(iVertexSplit, iV1, iV3);
+	_pKernel->add_triangle(iV1, iVertexSplit, iV3);
+	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle2);
 }
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1014ab4bdc6ec317378b0d5d69adc116496d7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:40 +0000
Subject: [PATCH 02/36] fix: mesh assignment keeps the content on
 self-assignment and does not leak

---
 src/Mesh.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 3342242..af407cc 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -22,6 +22,7 @@ Mesh::Mesh()
 
 Mesh::Mesh(const Mesh& m)
 {
+	_pKernel = new MeshKernelLinkedTriangles;
 	this->operator=(m);
 }
 
@@ -109,7 +110,9 @@ void Mesh::unlink_triangle(int iTriangle)
 
 Mesh& Mesh::operator=(const Mesh& m)
 {
-	_pKernel = new MeshKernelLinkedTriangles;
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	set_color(m.get_color());
-- 
2.43.0


From 6fd528a04dda4e85a858d46ae3d875e4982ba309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:43 +0000
Subject: [PATCH 03/36] fix: appending a mesh to itself terminates

---
 src/Mesh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index af407cc..8fa7da6 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -127,7 +127,9 @@ void Mesh::add_mesh(const Mesh& f)
 	_iColor = f.get_color();
 
 	int iNbVertices = nb_vertices();
-	for (int i = 0; i < f.nb_vertices(); i++)
+	int iNbVerticesToAdd = f.nb_vertices(); // f may be *this
+	int iNbTrianglesToAdd = f.nb_triangles();
+	for (int i = 0; i < iNbVerticesToAdd; i++)
 	{
 		Point3 v;
 		f.get_vertex(i, v);
@@ -135,7 +137,7 @@ void Mesh::add_mesh(const Mesh& f)
 	}
 
 	int iVertex1, iVertex2, iVertex3;
-	for (int i = 0; i < f.nb_triangles(); i++)
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		if (f.is_triangle_unlinked(i))
 			continue;
-- 
2.43.0


From 67fc18506763a37427251a7d6f0f6281ce2fd950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:45 +0000
Subject: [PATCH 04/36] fix: Face assignment assigns

---
 src/Face.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Face.cpp b/src/Face.cpp
index 004d796..5aa3334 100644
--- a/src/Face.cpp
+++ b/src/Face.cpp
@@ -25,7 +25,9 @@ Face::~Face()
 
 Face& Face::operator=(const Face& other)
 {
-	return *new Face(*this);
+	_mesh = other._mesh;
+	_iColor = other._iColor;
+	return *this;
 }
 
 void Face::set_color(int iColor)
-- 
2.43.0


From f68d8b94446e7e5505ab2cd0ec8fa1cabe2eedea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 05/36] fix: Solid assignment assigns, and copies keep the
 faces

---
 src/Solid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Solid.cpp b/src/Solid.cpp
index f5d8815..6d935ec 100644
--- a/src/Solid.cpp
+++ b/src/Solid.cpp
@@ -7,7 +7,8 @@ Solid::Solid()
 }
 
 Solid::Solid(const Solid& f) :
-	_mesh(f._mesh)
+	_mesh(f._mesh),
+	_faces(f._faces)
 {
 }
 
@@ -22,7 +23,9 @@ Solid::~Solid()
 
 Solid& Solid::operator=(const Solid& other)
 {
-	return *new Solid(*this);
+	_mesh = other._mesh;
+	_faces = other._faces;
+	return *this;
 }
 
 
-- 
2.43.0


From cb77661e82ee1ad2588921146cf883fd0a8f27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:49 +0000
Subject: [PATCH 06/36] fix: a smooth mesh assigned or appended to itself keeps
 its content

---
 src/SmoothMesh.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SmoothMesh.cpp b/src/SmoothMesh.cpp
index 6ba3c29..546e774 100644
--- a/src/SmoothMesh.cpp
+++ b/src/SmoothMesh.cpp
@@ -44,6 +44,9 @@ int SmoothMesh::nb_triangles() const
 
 SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 {
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	return *this;
@@ -51,9 +54,11 @@ SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 
 void SmoothMesh::add_mesh(const SmoothMesh& vst)
 {
-	for (int i = 0; i < vst.nb_triangles(); i++)
+	int iNbTriangles = vst.nb_triangles(); // vst may be this mesh
+	for (int i = 0; i < iNbTriangles; i++)
 	{
-		_vst.push_back(vst.triangle(i));
+		QuadBezierTriangle st = vst.triangle(i);
+		_vst.push_back(st);
 	}
 }
 
-- 
2.43.0


From 7ef2071bc520d8b5a505970f0e832dbaf23053a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 07/36] fix: SmoothMesh::empty is defined

---
 src/SmoothMesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SmoothMesh.cpp b/src/SmoothMesh.cpp
index 546e774..452d63c 100644
--- a/src/SmoothMesh.cpp
+++ b/src/SmoothMesh.cpp
@@ -75,6 +75,11 @@ void SmoothMesh::clear()
 	_vst.clear();
 }
 
+bool SmoothMesh::empty() const
+{
+	return _vst.empty();
+}
+
 void SmoothMesh::apply_transform(const Transform& t)
 {
 	for (int i = 0; i < nb_triangles(); i++)
-- 
2.43.0


From 4eeb99eb2ebf90fca5b6f859b815f6031463d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 08/36] fix: converting a mesh to a solid skips removed
 triangles

---
 src/NurbsUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 41770bd..733d6e9 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -43,6 +43,9 @@ void NurbsUtil::create_from_mesh(const Mesh& m, NurbsSolid& n)
 	n.clear();
 	for (int i = 0; i < m.nb_triangles(); i++)
 	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
 		Triangle3 t;
 		m.get_triangle(i, t);
 
-- 
2.43.0


From 12b17a98093053bde329046cabf4b52b46ca611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 09/36] fix: cylinder caps have no extra triangle

---
 src/MeshFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshFactory.cpp b/src/MeshFactory.cpp
index ae30697..09d206a 100644
--- a/src/MeshFactory.cpp
+++ b/src/MeshFactory.cpp
@@ -204,14 +204,14 @@ namespace MeshFactory
 		m.add_quad(2 * iNbSegmentLongitude - 2, 2 * iNbSegmentLongitude - 1, 1, 0);
 
 		// associates triangles, up face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2, 2 * i, 2 * i + 2);
 		}
 		m.add_triangle(iNbSegmentLongitude * 2, 2 * iNbSegmentLongitude - 2, 0);
 
 		// associates triangles, down face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2 + 1, 2 * i + 3, 2 * i + 1);
 		}
-- 
2.43.0


From 1a20e6b34f56d1a05aa805daa84130eb767383e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:00 +0000
Subject: [PATCH 10/36] fix: the mesh of a Bezier triangle covers the whole
 patch, oriented as its corners

---
 src/QuadBezierTriangle.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/QuadBezierTriangle.cpp b/src/QuadBezierTriangle.cpp
index ba6d1c2..046e0b6 100644
--- a/src/QuadBezierTriangle.cpp
+++ b/src/QuadBezierTriangle.cpp
@@ -92,15 +92,15 @@ void QuadBezierTriangle::add_to_mesh(Mesh& m, int iNbSegments) const
 	{
 		int lineSize = iNbSegments - is + 1;
 
-		// add 1st triangle
-		m.add_triangle(pos, pos + 1, pos + lineSize);
-		pos += lineSize;
-
-		for (int iu = 1; iu <= lineSize - 4; iu++)
+		for (int iu = 0; iu < lineSize - 1; iu++)
 		{
-			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + lineSize - 1);
-			m.add_triangle(pos + iu, pos + iu + 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu + 1, pos + iu, pos + iu + lineSize);
+
+			if (iu > 0)
+				m.add_triangle(pos + iu, pos + iu + lineSize - 1, pos + iu + lineSize);
 		}
+
+		pos += lineSize;
 	}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 054fd2d957341c77eaa8327963c21f1a476ab6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:31 +0000
Subject: [PATCH 11/36] fix: a point of the line p2p3 outside the triangle is
 not contained

---
 src/Geometry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index a2b87d8..8f82cf1 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -369,6 +369,10 @@ bool Triangle3::contains(const Point3& p) const
 	if (u.dot_product(w) < 0.)
 		return false;
 
+	// when p is on the line p2p3, u is null and only this one can tell
+	if (v.dot_product(w) < 0.)
+		return false;
+
 	return true;
 }
 
-- 
2.43.0


From 0be67040852af3e19f0e69c7b9ac6b041a10dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:34 +0000
Subject: [PATCH 12/36] fix: segments that do not meet do not intersect

---
 src/Geometry.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 8f82cf1..5e8941e 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -283,13 +283,14 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 
 	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
 
-	// can compute the nearest point on the other segment
-	// double mub = (d1343 + d4321 * mua) / d4343;
-	// pIntersectionb = P3 + p43 * mub;
-	//if ((mub < 0.) || (mub > 1.))
-	//	return false;
+	// compute the nearest point on the other segment
+	double mub = (d1343 + d4321 * mua) / d4343;
+	if ((mub < 0.) || (mub > 1.))
+		return false;
 
-	return true;
+	// the lines must meet, not only pass by
+	Point3 pIntersectionb = P3 + p43 * mub;
+	return pIntersection.distance_square(pIntersectionb) <= 1.e-16 * (d2121 + d4343);
 }
 
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c9f28c21c599ef5593c8b46c5aa222362b1e460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:37 +0000
Subject: [PATCH 13/36] fix: cutting meshes only splits live triangles

---
 src/Mesh.cpp        |  6 +++---
 src/MeshBoolean.cpp | 15 +++++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 8fa7da6..a368805 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -356,6 +356,9 @@ void Mesh::apply_transform(const Transform& t)
 //////////////////////////////////////////////////////////////////////////////////
 void Mesh::split_triangle(int iTriangle, const Triangle3 & tSplitter)
 {
+	if (is_triangle_unlinked(iTriangle))
+		return;
+
 	Triangle3 tA; get_triangle(iTriangle, tA);
 	Point3 pIntersection;
 
@@ -413,9 +416,6 @@ void Mesh::split_triangle(int iTriangle, const Triangle3 & tSplitter)
 
 		if ((b12 || b13 || b23) == false)
 			return; // not intersection
-
-		assert((b12 && b13 && b23) == false); //not possible to intersect all 3 sides
-
 	}
 
 	/*
diff --git a/src/MeshBoolean.cpp b/src/MeshBoolean.cpp
index b3f8ab0..2f81443 100644
--- a/src/MeshBoolean.cpp
+++ b/src/MeshBoolean.cpp
@@ -9,23 +9,26 @@ void MeshBoolean::split_meshes(const Mesh& A, const Mesh& B, Mesh& Aoutside, Mes
 	Aoutside = A;
 	Boutside = B;
 
+	// copies do not keep the removed triangles: use the ids of the copies
+	const Mesh mA(Aoutside), mB(Boutside);
+
 	//slow, for now
-	for (int i = 0; i < A.nb_triangles(); i++)
+	for (int i = 0; i < mA.nb_triangles(); i++)
 	{
-		if (A.is_triangle_unlinked(i))
+		if (mA.is_triangle_unlinked(i))
 			continue;
 
 		Triangle3 tA;
-		A.get_triangle(i, tA);
+		mA.get_triangle(i, tA);
 		BoundingBox3 bboxA(tA);
 
-		for (int j = 0; j < B.nb_triangles(); j++)
+		for (int j = 0; j < mB.nb_triangles(); j++)
 		{
-			if (B.is_triangle_unlinked(j))
+			if (mB.is_triangle_unlinked(j))
 				continue;
 
 			Triangle3 tB;
-			B.get_triangle(j, tB);
+			mB.get_triangle(j, tB);
 			BoundingBox3 bboxB(tB); // slow: we recompute the bbox each time
 
 			if (bboxA.intersect_with(bboxB) == false)
-- 
2.43.0


From a04cd24b04b79c7d64e6c9abd52f7e22a8c8627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:40 +0000
Subject: [PATCH 14/36] fix: all octants of the smooth sphere have the same
 orientation

---
 src/SmoothMeshFactory.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SmoothMeshFactory.cpp b/src/SmoothMeshFactory.cpp
index 6458eee..64b6398 100644
--- a/src/SmoothMeshFactory.cpp
+++ b/src/SmoothMeshFactory.cpp
@@ -192,22 +192,22 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(-d, d, 0), Point3(-d, 0, d), Point3(0, d, d));
+			st.set_points(Point3(-d, 0, 0), Point3(0, 0, d), Point3(0, d, 0));
+			st.set_control_points(Point3(-d, 0, d), Point3(-d, d, 0), Point3(0, d, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, -d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(d, -d, 0), Point3(d, 0, d), Point3(0, -d, d));
+			st.set_points(Point3(d, 0, 0), Point3(0, 0, d), Point3(0, -d, 0));
+			st.set_control_points(Point3(d, 0, d), Point3(d, -d, 0), Point3(0, -d, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(d, d, 0), Point3(d, 0, -d), Point3(0, d, -d));
+			st.set_points(Point3(d, 0, 0), Point3(0, 0, -d), Point3(0, d, 0));
+			st.set_control_points(Point3(d, 0, -d), Point3(d, d, 0), Point3(0, d, -d));
 			m.add_triangle(st);
 		}
 
@@ -220,8 +220,8 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, -d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(-d, -d, 0), Point3(-d, 0, -d), Point3(0, -d, -d));
+			st.set_points(Point3(-d, 0, 0), Point3(0, 0, -d), Point3(0, -d, 0));
+			st.set_control_points(Point3(-d, 0, -d), Point3(-d, -d, 0), Point3(0, -d, -d));
 			m.add_triangle(st);
 		}
 
-- 
2.43.0


From 00e7333946fdb33e4620ff6fa0df0edc98c3c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:44 +0000
Subject: [PATCH 15/36] fix: clear and set_equals_weights of a surface forget
 the previous content

---
 src/NurbsSurface.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 91c78cf..d789eae 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -28,6 +28,8 @@ void NurbsSurface::clear()
 	_points.clear();
 	_iNbPointsU = 0;
 	_iNbPointsV = 0;
+	_bClosedU = false;
+	_bClosedV = false;
 }
 
 void NurbsSurface::set_degree(int degreeU, int degreeV)
@@ -130,7 +132,7 @@ void NurbsSurface::set_weights(const vector <double>& weights)
 
 void NurbsSurface::set_equals_weights() //non rational
 {
-	_weights.resize(_points.size(), 1.);
+	_weights.assign(_points.size(), 1.);
 }
 
 const vector<double>& NurbsSurface::weights() const
-- 
2.43.0


From 26abcf5b6b0c3f8de8c58e8395500cd3dee49289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:47 +0000
Subject: [PATCH 16/36] fix: the surface of a height field has u along x, as
 its control grid

---
 src/NurbsUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 733d6e9..0067e76 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -19,8 +19,8 @@ void NurbsUtil::create_from_z(const vector<double>& z, int iSizeX, int iSizeY, i
 	vector < Point3> points;
 
 	int idx = 0;
-	for (int x = 0; x < iSizeX; x++)
-		for (int y = 0; y < iSizeY; y++)
+	for (int y = 0; y < iSizeY; y++)
+		for (int x = 0; x < iSizeX; x++)
 		{
 			Point3 p;
 			p.x() = x;
-- 
2.43.0


From 1143e8a551fed68930eca99420ea3e4c0801d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:50 +0000
Subject: [PATCH 17/36] fix: Image::to_double keeps columns and rows, and stays
 in the image

---
 src/Image.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Image.h b/src/Image.h
index 74dbe0d..eebb6bd 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -105,10 +105,10 @@ public:
 
     void to_double(vector<double>& img)
     {
-        img.resize(size());
-        for (size_t ligne = 0; ligne < (size_t)width(); ligne++)
-            for (size_t colonne = 0; colonne < (size_t)height(); colonne++)
-                img[colonne + ligne * width()] = (*this)((int)ligne, (int)colonne);
+        img.resize((size_t)width() * (size_t)height());
+        for (size_t ligne = 0; ligne < (size_t)height(); ligne++)
+            for (size_t colonne = 0; colonne < (size_t)width(); colonne++)
+                img[colonne + ligne * width()] = (*this)((int)colonne, (int)ligne);
     }
 
 private:
-- 
2.43.0


From 57c8469a84087b8876088f9c5cc6bff25750ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:53 +0000
Subject: [PATCH 18/36] fix: ruling curves of different structure fails instead
 of giving a broken surface

---
 src/NurbsRuled.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NurbsRuled.cpp b/src/NurbsRuled.cpp
index 87d5d9b..56bd32b 100644
--- a/src/NurbsRuled.cpp
+++ b/src/NurbsRuled.cpp
@@ -18,9 +18,10 @@ bool NurbsRuled::create_ruled(const NurbsCurve& nc1, const NurbsCurve& nc2, Nurb
 {
 	ns.clear();
 
-	// for now, assume degree,knots and points have equal size
+	// for now, only curves with the same degree, knots and number of points
 	// todo
-	// assume also knots are the same: todo
+	if (nc1.degree() != nc2.degree() || nc1.nb_points() != nc2.nb_points() || nc1.knots() != nc2.knots())
+		return false;
 
 	vector<Point3> vp;
 	vector<double> vw;
-- 
2.43.0


From 871f826523ce49bba63ea398fefbcd9cd650578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:56 +0000
Subject: [PATCH 19/36] fix: scaling an image saturates

---
 src/ImageUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ImageUtil.cpp b/src/ImageUtil.cpp
index 6389031..94e4550 100644
--- a/src/ImageUtil.cpp
+++ b/src/ImageUtil.cpp
@@ -27,6 +27,6 @@ void ImageUtil::scale(Image& im, double dScale)
 	for (int i = 0; i < im.width(); i++)
 		for (int j = 0; j < im.height(); j++)
 			for (int p= 0;p< im.planes();p++)
-				im(i, j, p) = (unsigned char)(im(i, j, p) * dScale + 0.5);
+				im(i, j, p) = (unsigned char)(min(max(im(i, j, p) * dScale, 0.), 255.) + 0.5);
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f59ace9667757b17d9ddd88d943eb20dd2518d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:59 +0000
Subject: [PATCH 20/36] fix: the polyline of a curve always ends at its end

---
 src/NurbsCurve.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index c8699f4..6bcd521 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -267,11 +267,11 @@ void NurbsCurve::to_polyline(vector<Point3>& polyline) const
 	if (_points.empty())
 		return;
 
-	double deltaT = 1. / (_points.size() * 10.); //todo set 10 dynamic
+	int iNbSegments = (int)_points.size() * 10; //todo set 10 dynamic
 	Point3 p;
-	for (double t = 0; t <= 1.; t += deltaT) // todo last point?
+	for (int i = 0; i <= iNbSegments; i++)
 	{
-		evaluate(t, p);
+		evaluate((double)i / iNbSegments, p);
 		polyline.push_back(p);
 	}
 }
-- 
2.43.0


From d2a428bb7fce5f1792ceee0ca73693ade3a86027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:57 +0000
Subject: [PATCH 21/36] fix: polylines in OBJ files refer to their own vertices
 and end their line

---
 src/OBJFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index eb0d2a1..390afcf 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -141,8 +141,9 @@ void OBJWriter::write(const vector<Point3>& polyline)
 	_f << "l ";
 	for (int i = 0; i < polyline.size(); i++)
 	{
-		_f << i + _verticesCount << " ";
+		_f << i + 1 + _verticesCount << " ";
 	}
+	_f << endl;
 
 	_verticesCount += polyline.size();
 }
\ No newline at end of file
-- 
2.43.0


From 9ff15678fa37761901117c1dcac4534d5dbce076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:00 +0000
Subject: [PATCH 22/36] fix: a writer opened again starts a new complete file

---
 src/OBJFile.cpp  | 4 ++++
 src/StepFile.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 390afcf..7ed3b41 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -75,6 +75,10 @@ OBJWriter::~OBJWriter()
 
 void OBJWriter::open(const string& filename)
 {
+	if (_f.is_open())
+		_f.close();
+
+	_verticesCount = 0;
 	_f.open(filename);
 }
 
diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 69adcda..fea99db 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -49,6 +49,8 @@ StepWriter::~StepWriter()
 
 void StepWriter::open(const string& filename)
 {
+	close();
+
 	_iItemIndent = 10;
 	_sNameFile = filename;
 	_f.open(filename);
-- 
2.43.0


From 0cae7c9a03d7f3defefa62a6c67381bf2029c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:03 +0000
Subject: [PATCH 23/36] fix: loading a malformed OBJ file fails instead of
 aborting or never ending

---
 src/OBJFile.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 7ed3b41..1c0b93d 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -28,10 +28,10 @@ namespace OBJFile
 			return false;
 
 		to_mesh.clear();
-		while (!f.eof())
+		string sLine;
+		while (getline(f, sLine))
 		{
-			string sType, sLine;
-			getline(f, sLine);
+			string sType;
 
 			if (sLine.size() == 0)
 				continue;
@@ -43,7 +43,9 @@ namespace OBJFile
 			if (sType == "v")
 			{
 				double x, y, z;
-				ss >> x >> y >> z;
+				if (!(ss >> x >> y >> z))
+					return false;
+
 				to_mesh.add_vertex(Point3(x, y, z));
 			}
 
@@ -51,13 +53,18 @@ namespace OBJFile
 			if (sType == "f")
 			{
 				int i1, i2, i3;
-				ss >> i1 >> i2 >> i3;
+				if (!(ss >> i1 >> i2 >> i3))
+					return false;
+
+				int iNbVertices = to_mesh.nb_vertices();
+				if (i1 < 1 || i2 < 1 || i3 < 1 || i1 > iNbVertices || i2 > iNbVertices || i3 > iNbVertices)
+					return false;
 
 				to_mesh.add_triangle(i1 - 1, i2 - 1, i3 - 1);
 			}
 		}
 
-		return true;
+		return !f.bad();
 	}
 	///////////////////////////////////////////////////////////////////////////
 }
-- 
2.43.0


From fe7d6a18a250c0c06e8dcabc0e461fa3bc972332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:06 +0000
Subject: [PATCH 24/36] fix: loading a truncated STL file fails

---
 src/STLFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 52f41e0..0c95b53 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -75,6 +75,8 @@ namespace STLFile
 
 		int32_t nbFacet = 0;
 		f.read((char*)(&nbFacet), 4);
+		if (!f || nbFacet < 0)
+			return false;
 
 		// read facets
 		float p1x = 0.f, p1y = 0.f, p1z = 0.f;
@@ -102,6 +104,9 @@ namespace STLFile
 			//ignore color
 			f.read((char*)(&tmp), 2);
 
+			if (!f)
+				return false; // truncated file
+
 			to_mesh.add_vertex(p1x, p1y, p1z);
 			to_mesh.add_vertex(p2x, p2y, p2z);
 			to_mesh.add_vertex(p3x, p3y, p3z);
-- 
2.43.0


From e70a9f0c328862bccf8d5a7970d1826985f4167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:09 +0000
Subject: [PATCH 25/36] fix: the row padding of BMP files is skipped when
 reading

---
 src/ImageIoBmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 39a9336..a70787f 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -74,7 +74,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	if (sBPP == 24)
 	{
 		int iLineWidthPerfect = iWidth * iNbByte;
-		int iLineWidth = (iLineWidthPerfect + 3) % 4;
+		int iLineWidth = (iLineWidthPerfect + 3) / 4 * 4;
 		int iPack = iLineWidth - iLineWidthPerfect;
 
 		// read data buffer
@@ -99,7 +99,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 	if (sBPP == 8)
 	{   //assume grey level, no color LUT for now
-		int iLineWidth = iWidth + (iWidth % 4);
+		int iLineWidth = (iWidth + 3) / 4 * 4;
 		int iPack = iLineWidth - iWidth;
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
-- 
2.43.0


From 27ede5bed319ce2e6f22e4fe74256daf4bbea55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:32 +0000
Subject: [PATCH 26/36] fix: BMP headers are checked and followed when reading

---
 src/ImageIoBmp.cpp | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index a70787f..77edaa3 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -3,6 +3,7 @@
 
 #include <fstream>
 #include <cassert>
+#include <climits>
 
 //////////////////////////////////////////////////////////////////////////////
 bool ImageIoBmp::read(const string& sFilename, Image* pImage)
@@ -25,7 +26,8 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	fbmp.read((char*)&iTmp, 4);
 	fbmp.read((char*)&sTmp, 2);
 	fbmp.read((char*)&sTmp, 2);
-	fbmp.read((char*)&iTmp, 4);
+	int iOffset = 0;
+	fbmp.read((char*)&iOffset, 4);
 
 	// 2nd struct
 	fbmp.read((char*)&iTmp, 4);
@@ -39,14 +41,41 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	short sBPP = 0;
 	fbmp.read((char*)&sBPP, 2); // bpp
 
-	fbmp.read((char*)&iTmp, 4); //compression
+	int iCompression = 0;
+	fbmp.read((char*)&iCompression, 4); //compression
 	fbmp.read((char*)&iTmp, 4); //sizeimage
 	fbmp.read((char*)&iTmp, 4); //ppiX
 	fbmp.read((char*)&iTmp, 4); //ppiY
 	fbmp.read((char*)&iTmp, 4); //clrused
 	fbmp.read((char*)&iTmp, 4); //clr important
 
+	if (!fbmp)
+		return false;
+
+	if (sBPP != 8 && sBPP != 24 && sBPP != 32)
+		return false; //format not handled for now
+
+	if (iCompression != 0 && (iCompression != 3 || sBPP != 32))
+		return false; //compressed
+
+	// lines are stored bottom up, unless the height is negative
+	if (iWidth <= 0 || iHeight == 0 || iHeight == INT_MIN)
+		return false;
+
+	bool bTopDown = iHeight < 0;
+	if (bTopDown)
+		iHeight = -iHeight;
+
 	int iNbByte = sBPP >> 3;
+
+	// all the lines must be in the file
+	fbmp.seekg(0, std::ios::end);
+	long long iFileSize = fbmp.tellg();
+	long long iFileLine = ((long long)iWidth * iNbByte + 3) / 4 * 4;
+	if (iOffset < 54 || iOffset > iFileSize || iFileLine > (iFileSize - iOffset) / iHeight)
+		return false;
+	fbmp.seekg(iOffset);
+
 	pImage->resize(iWidth, iHeight, iNbByte);
 
 	if (sBPP == 32)
@@ -57,7 +86,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 		unsigned char *pLineY, cTmpR;
 		for (int iY = 0; iY < iHeight; iY++)
 		{
-			pLineY = pImage->pixel(0, iHeight - iY - 1, 0);
+			pLineY = pImage->pixel(0, bTopDown ? iY : iHeight - iY - 1, 0);
 			fbmp.read((char*)pLineY, iLineWidthPerfect);
 
 			//swap R and B
@@ -81,7 +110,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 		unsigned char cTmp[3] = { 0 }, * pLineY, cTmpR;
 		for (int iY = 0; iY < iHeight; iY++)
 		{
-			pLineY = pImage->pixel(0, iHeight - iY - 1, 0);
+			pLineY = pImage->pixel(0, bTopDown ? iY : iHeight - iY - 1, 0);
 			fbmp.read((char*)pLineY, iLineWidthPerfect);
 
 			//swap R and B
@@ -103,13 +132,9 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 		int iPack = iLineWidth - iWidth;
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
-		//read lut, but do not use:
-		for (int i = 0; i < 256 * 4; i++)
-			fbmp.read((char*)cTmp, 1);
-
 		for (int iY = iHeight - 1; iY >= 0; iY--)
 		{
-			pLineY = pImage->pixel(0, iY, 0);
+			pLineY = pImage->pixel(0, bTopDown ? iHeight - iY - 1 : iY, 0);
 			fbmp.read((char*)pLineY, iWidth);
 			fbmp.read((char*)cTmp, iPack);
 		}
-- 
2.43.0


From cc5a0ffe502a91caccd907877b90b864381c2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:37 +0000
Subject: [PATCH 27/36] fix: a save that could not store everything reports
 failure

---
 src/ImageIoBmp.cpp | 5 ++++-
 src/OBJFile.cpp    | 7 ++++++-
 src/OBJFile.h      | 1 +
 src/STLFile.cpp    | 4 +++-
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 77edaa3..7195d74 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -149,6 +149,9 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 {
 	assert(pImage != 0);
 
+	if (pImage->size() == 0 || (pImage->planes() != 1 && pImage->planes() != 3 && pImage->planes() != 4))
+		return false; //format not handled for now
+
 	//create file
 	std::fstream fbmp(sFilename.data(), std::ios::binary | std::ios::out);
 	if (!fbmp)
@@ -277,6 +280,6 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 	}
 
 	fbmp.close();
-	return true;
+	return !fbmp.fail();
 }
 //////////////////////////////////////////////////////////////////////////////
diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 1c0b93d..2cbf3ed 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -17,7 +17,7 @@ namespace OBJFile
 
 		ow.write(to_mesh);
 		ow.close();
-		return true;
+		return !ow.has_failed();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	// todo add vertex aliasing on load
@@ -94,6 +94,11 @@ bool OBJWriter::is_open()
 	return _f.is_open();
 }
 
+bool OBJWriter::has_failed() const
+{
+	return _f.fail();
+}
+
 void OBJWriter::close()
 {
 	_f.close();
diff --git a/src/OBJFile.h b/src/OBJFile.h
index 4bdcd87..c5cb9ed 100644
--- a/src/OBJFile.h
+++ b/src/OBJFile.h
@@ -16,6 +16,7 @@ public:
 
 	void open(const string& filename);
 	bool is_open();
+	bool has_failed() const; // true if something could not be written
 	void close();
 
 	void write(const Mesh& to_mesh);
diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 0c95b53..52de6dd 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -58,7 +58,9 @@ namespace STLFile
 
 			f.write((char*)(&zero), 2);
 		}
-		return true;
+
+		f.close();
+		return !f.fail();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	bool load(const string& filename, Mesh& to_mesh)
-- 
2.43.0


From 4e3e804e3fbd88c35b6fbc72a53d6c849959b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:40 +0000
Subject: [PATCH 28/36] fix: depth of triangles cut by the left border

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 45fba8a..0c9c66f 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -278,7 +278,7 @@ void Renderer::draw_horizontal_line(int ax, double aw, int bx, double bw, int y,
 		assert(t <= 1.);
 
 		ax = 0; // bx* t + (1. - t) * ax;
-		aw = bw * t + (1. - t)*aw;
+		aw = aw * t + (1. - t)*bw;
 	}
 	if (bx >= _Xmax)
 	{
-- 
2.43.0


From 438078efdadfb709924793e872179995c9e00ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:43 +0000
Subject: [PATCH 29/36] fix: triangles cut by the bottom border also cover the
 last row

---
 src/Renderer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 0c9c66f..fafd595 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -219,13 +219,13 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		bx = dx * t + (1. - t)*bx;
 		bw = dw * t + (1. - t)*bw;
 	}
-	if (cy >= _Ymax )
+	if (cy > _Ymax )
 	{
-		double t = (double)(cy - (_Ymax-1)) / (cy - ay);
+		double t = (double)(cy - _Ymax) / (cy - ay);
 		assert(t >= 0.);
 		assert(t <= 1.);
  
-		cy = _Ymax-1;
+		cy = _Ymax;
 		cx = ax * t + (1. - t)*cx;
 		cw = aw * t + (1. - t)*cw;
 		dx = bx * t + (1. - t)*dx;
@@ -234,7 +234,7 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 
 	assert(ay >= 0);
 	assert(ay <= cy);
-	assert(cy < _Ymax);
+	assert(cy <= _Ymax);
 
 	//plot trapeze
 	assert(ay <= cy);
-- 
2.43.0


From 236f5292a473ce6d968c8eecdfd0457284aed74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:45 +0000
Subject: [PATCH 30/36] fix: lights are deleted through a virtual destructor

---
 src/RendererLight.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/RendererLight.h b/src/RendererLight.h
index dd8787f..26b5c95 100644
--- a/src/RendererLight.h
+++ b/src/RendererLight.h
@@ -7,6 +7,7 @@ class RendererLight
 {
 public:
 	RendererLight();
+	virtual ~RendererLight() {}
 
 	virtual void apply(double& dRed, double& dGreen, double& dBlue, const Point3& normal) = 0;
 };
-- 
2.43.0


From 75062e42294a44031e7230ee943fa4a8749d8cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:11 +0000
Subject: [PATCH 31/36] fix: segments crossing is found whatever their length

The test for parallel segments compared a quantity that scales as the
fourth power of the length with an absolute epsilon: segments shorter
than a few millimetres never crossed.
---
 src/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 5e8941e..d0b63cf 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -270,7 +270,7 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 	double d2121 = p21.dot_product(p21);
 
 	double denom = d2121 * d4343 - d4321 * d4321;
-	if (fabs(denom) < EPS)
+	if (fabs(denom) < EPS * d2121 * d4343) // nearly parallel, whatever the lengths of the segments
 		return false;
 
 	double d1321 = p13.dot_product(p21);
-- 
2.43.0


From ba01e9f50336fb625f0fbb1e294a26c9e3d539ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:14 +0000
Subject: [PATCH 32/36] fix: Plane3::intersect_with(Plane3) reported a line it
 did not compute

---
 src/Geometry.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index d0b63cf..20b64f5 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -516,12 +516,11 @@ bool Plane3::intersect_with(const Plane3& p, Line3& pIntersection) const
 	if (direction.norm_square() < espilon * espilon)
 		return false;
 
-	//compute one intersection point
+	//compute one intersection point, the nearest to the origin
+	Point3 point = (p.normal().cross_product(direction) * (-_d) + direction.cross_product(normal()) * (-p._d)) / direction.norm_square();
 
-	//Plane3 p4(Point3(), this->normal() * this->_d, p.normal() * p._d);
-
-
-	//todo
+	pIntersection.set_p1(point);
+	pIntersection.set_p2(point + direction);
 
 	return true;
 }
-- 
2.43.0


From 29d67e8ee089cb8587a82f6dc0b42fa8c885b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:53 +0000
Subject: [PATCH 33/36] fix: STEP control points and weights are listed along u
 first, as the knots

---
 src/StepFile.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index fea99db..a08c22f 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -90,18 +90,17 @@ void StepWriter::write(const NurbsSurface& n)
 
 	//write control points
 	_f << "B_SPLINE_SURFACE(" << n.degree_u() << "," << n.degree_v() << ",(" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++) // one list per row along u
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
-			_f << "#" << iPointIndex;
-			iPointIndex++;
-			if (i + 1 != n.nb_points_u())
+			_f << "#" << iPointIndex + n.nb_points_u() * j + i;
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 
@@ -150,17 +149,17 @@ void StepWriter::write(const NurbsSurface& n)
 
 	//write weights
 	_f << endl << "RATIONAL_B_SPLINE_SURFACE((" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++)
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
 			_f << n.weights()[n.nb_points_u() * j + i];
-			if (i + 1 != n.nb_points_u())
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 	_f << endl << "))";
-- 
2.43.0


From bf9d09cebd405bcd633e7f336f346c74969ea601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:59 +0000
Subject: [PATCH 34/36] fix: STEP knots have the multiplicities of the surface

---
 src/StepFile.cpp | 62 +++++++++++++++++++++++++++++-------------------
 src/StepFile.h   |  2 ++
 2 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index a08c22f..cb8e6dd 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -77,6 +77,39 @@ void StepWriter::write_cartesian_point(const Point3& p)
 	_iItemIndent++;
 }
 
+// each distinct knot is listed once, with its multiplicity
+void StepWriter::write_knot_multiplicities(const vector<double>& knots)
+{
+	_f << "(";
+	for (size_t i = 0; i < knots.size(); )
+	{
+		size_t iNext = i + 1;
+		while (iNext < knots.size() && knots[iNext] == knots[i])
+			iNext++;
+
+		_f << iNext - i;
+		i = iNext;
+		if (i != knots.size())
+			_f << ",";
+	}
+	_f << ")," << endl;
+}
+
+void StepWriter::write_knot_values(const vector<double>& knots)
+{
+	_f << "(";
+	for (size_t i = 0; i < knots.size(); i++)
+	{
+		if (i > 0 && knots[i] == knots[i - 1])
+			continue;
+
+		if (i > 0)
+			_f << ",";
+		_f << knots[i];
+	}
+	_f << ")," << endl;
+}
+
 void StepWriter::write(const NurbsSurface& n)
 {
 	int iPointIndex = _iItemIndent;
@@ -115,33 +148,12 @@ void StepWriter::write(const NurbsSurface& n)
 	_f << "B_SPLINE_SURFACE_WITH_KNOTS(" << endl;
 
 	//write knot multiplicity
-	_f << "(" << n.degree_u() + 1 << ",";
-	for (int i = 0; i < ku.size() - n.degree_u() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_u() + 1 << ")," << endl;
-
-	_f << "(" << n.degree_v() + 1 << ",";
-	for (int i = 0; i < kv.size() - n.degree_v() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_v() + 1 << ")," << endl;
-	_f << "(";
+	write_knot_multiplicities(ku);
+	write_knot_multiplicities(kv);
 
 	//write knot values
-	for (int i = n.degree_u(); i < ku.size() - n.degree_u(); i++)
-	{
-		_f << ku[i];
-		if (i != ku.size() - n.degree_u() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl << "(";
-
-	for (int i = n.degree_v(); i < kv.size() - n.degree_v(); i++)
-	{
-		_f << kv[i];
-		if (i != kv.size() - n.degree_v() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl;
+	write_knot_values(ku);
+	write_knot_values(kv);
 
 	_f << ".UNSPECIFIED.)";
 
diff --git a/src/StepFile.h b/src/StepFile.h
index 5eb0d04..8591961 100644
--- a/src/StepFile.h
+++ b/src/StepFile.h
@@ -33,6 +33,8 @@ private:
 	void write_header();
 	void write_footer();
 	void write_cartesian_point(const Point3& p);
+	void write_knot_multiplicities(const vector<double>& knots);
+	void write_knot_values(const vector<double>& knots);
 
 	ofstream _f;
 	string _sNameFile;
-- 
2.43.0


From 58d8cc82e457cf75fe26c3fb2e39ac9327ab6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 35/36] fix: round screen coordinates to the nearest pixel left
 of and above the image too

---
 src/Renderer.cpp       | 8 ++++----
 src/RendererCamera.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index fafd595..97fb498 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -167,8 +167,8 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	assert(t >= 0.);
 	assert(t <= 1.);
 
-	int dx = (int)(cx * t + (1. - t)*ax+0.5);
-	int dy = (int)(cy * t + (1. - t)*ay+0.5);
+	int dx = (int)floor(cx * t + (1. - t)*ax+0.5);
+	int dy = (int)floor(cy * t + (1. - t)*ay+0.5);
 	double dw = cw * t + (1. - t)*aw;
 
 	//reorder in x such that bx<dx
@@ -245,9 +245,9 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-		int p1x = (int)(cx * t + ax * (1. - t)+0.5);
+		int p1x = (int)floor(cx * t + ax * (1. - t)+0.5);
 		double p1w = (cw * t + aw * (1. - t));
-		int p2x = (int)(dx * t + bx * (1. - t)+0.5);
+		int p2x = (int)floor(dx * t + bx * (1. - t)+0.5);
 		double p2w = (dw * t + bw * (1. - t));
 
 		assert(p1x <= p2x);
diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index e605354..9ec6aa2 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -51,8 +51,8 @@ void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny,
 {
 	Point3 pc = local_ref(pPixels);
 
-	screenx = (int)(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
-	screeny = (int)(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
+	screenx = (int)floor(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
+	screeny = (int)floor(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
 	if (pc.z() != 0.)
 		w = 1. / pc.z();
 	else
-- 
2.43.0


From 4110f1db4a8b4bdad583629d97586d55a588617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 36/36] fix: factory shapes smaller than the closing tolerance
 were closed over their borders

---
 src/NurbsFactory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/NurbsFactory.cpp b/src/NurbsFactory.cpp
index c91aafd..e409fb1 100644
--- a/src/NurbsFactory.cpp
+++ b/src/NurbsFactory.cpp
@@ -50,6 +50,7 @@ void NurbsFactory::create_disk(double dRadius, NurbsSurface& ns)
 
 	NurbsRevolve nr;
 	nr.revolve(nc, ns);
+	ns.set_closed_v(false); // from the center to the border, however small
 }
 ///////////////////////////////////////////////////////////////////////////
 void NurbsFactory::create_curve_from_points(const vector<Point3>& points, int degree,NurbsCurve& nc) //no rational, uniform
@@ -85,6 +86,7 @@ void NurbsFactory::create_sphere(double dRadius,NurbsSurface& ns)
 
 	NurbsRevolve nr;
 	nr.revolve(nc, ns);
+	ns.set_closed_v(false); // from pole to pole, however small
 
 	for (auto& p : ns.points())
 	{
@@ -144,6 +146,7 @@ void NurbsFactory::create_cylinder(double dRadius, double dHeight, NurbsSolid& n
 	create_curve_from_points(points, 1, nc);
 	NurbsRevolve nr;
 	nr.revolve(nc, s2);
+	s2.set_closed_v(false); // from bottom to top, however flat
 
 	for (auto& p : s2.points())
 	{
@@ -190,6 +193,7 @@ void NurbsFactory::create_quad(const Point3& p1, const Point3& p2, const Point3&
 	create_curve_from_points({ p4,p3 }, 1, n2);
 	NurbsRuled nr;
 	nr.create_ruled(n1, n2, ns);
+	ns.set_closed_u(false); // two opposite edges, however near
 }
 ///////////////////////////////////////////////////////////////////////////
 void NurbsFactory::create_box(double dSizeX, double dSizeY, double dSizeZ, NurbsSolid& n)
-- 
2.43.0

