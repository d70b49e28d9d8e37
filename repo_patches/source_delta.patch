From afa53a08e784bb674219fe177c24f4c6dc871747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 01/74] fix: equality of points at infinity compares directions
 instead of an undefined distance

---
 homog2d.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 69d091c..dc37363 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5427,7 +5427,7 @@ SegVec<SV,FPT>::getPointAt( FPT2 dist ) const
 		return ppts.first;
 	else
 		return ppts.second;
-}
+}
 
 //------------------------------------------------------------------
 /// Returns two parallel segments to the current one in a pair
@@ -9022,6 +9022,16 @@ template<typename LP,typename FPT>
 bool
 LPBase<LP,FPT>::impl_op_equal( const LPBase<LP,FPT>& other, const detail::BaseHelper<typename typ::IsPoint>& ) const
 {
+	const auto inf1 = this->isInf();
+	const auto inf2 = other.isInf();
+	if( inf1 && inf2 ) // points at infinity are equal if they share the same direction
+	{
+		const HOMOG2D_INUMTYPE x1 = _v[0], y1 = _v[1], x2 = other._v[0], y2 = other._v[1];
+		return homog2d_abs( x1*y2 - x2*y1 )
+			< thr::nullDistance() * homog2d_sqrt( (x1*x1+y1*y1) * (x2*x2+y2*y2) );
+	}
+	if( inf1 || inf2 )
+		return false;
 	return ( this->distTo( other ) < thr::nullDistance() );
 }
 
-- 
2.43.0


From 1369baff6ea1f6bb67fdc9f1e62f80e89246989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 02/74] fix: getParallelDistance returned NaN for parallel
 lines with slightly different or opposite normals

---
 homog2d.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index dc37363..950178e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10975,8 +10975,8 @@ dsize( const T& t )
 
 We first check that the two lines are indeed parallel.
 This should ensure that a1=a2 and b1=b2.
-But due to numeric issues they could by slightly different. In order to gain accuracy,
-we use the geometric mean of these.
+But due to numeric issues they could by slightly different, or even of opposite sign.
+In order to gain accuracy, we use the geometric mean of these (this is the dot product of the normals).
 */
 template<typename FPT>
 HOMOG2D_INUMTYPE
@@ -10995,9 +10995,10 @@ getParallelDistance( const Line2d_<FPT>& li1, const Line2d_<FPT>& li2 )
 	const HOMOG2D_INUMTYPE b2 = ar2[1];
 	const HOMOG2D_INUMTYPE c2 = ar2[2];
 
-	HOMOG2D_INUMTYPE a = homog2d_sqrt( a1*a2 );
-	HOMOG2D_INUMTYPE b = homog2d_sqrt( b1*b2 );
-	return homog2d_abs( c1 - c2 ) / homog2d_sqrt( a*a + b*b );
+	HOMOG2D_INUMTYPE dot = a1*a2 + b1*b2;
+	if( dot < 0. )   // normals have opposite directions
+		return homog2d_abs( c1 + c2 ) / homog2d_sqrt( -dot );
+	return homog2d_abs( c1 - c2 ) / homog2d_sqrt( dot );
 }
 
 /// Return angle of ellipse (free function)
-- 
2.43.0


From e9b86292a94cdd0d74b9632a9abd6fec394d2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 03/74] fix: getExtended() on oriented segments did not build;
 now extends both ends and keeps the orientation

---
 homog2d.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 950178e..e666868 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5479,11 +5479,12 @@ template<typename SV, typename FPT>
 SegVec<SV,FPT>
 SegVec<SV,FPT>::getExtended() const
 {
-	Segment_<HOMOG2D_INUMTYPE> seg(*this); // to get highest precision
+	Segment_<HOMOG2D_INUMTYPE> seg( _ptS1, _ptS2 ); // to get highest precision
 	auto li = seg.getLine();
 	auto rad1 = seg.length();
-	auto c1 = Circle_<HOMOG2D_INUMTYPE>( _ptS1, rad1 );
-	auto c2 = Circle_<HOMOG2D_INUMTYPE>( _ptS2, rad1 );
+	auto ppts = seg.getPts(); // ordered
+	auto c1 = Circle_<HOMOG2D_INUMTYPE>( ppts.first,  rad1 );
+	auto c2 = Circle_<HOMOG2D_INUMTYPE>( ppts.second, rad1 );
 
 	auto int1 = li.intersects( c1 );
 	auto int2 = li.intersects( c2 );
@@ -5492,10 +5493,11 @@ SegVec<SV,FPT>::getExtended() const
 	auto ppt1 = int1.get();
 	auto ppt2 = int2.get();
 
-	return Segment_<FPT>(
-		ppt1.first,
-		ppt2.second
-	);
+	if constexpr( std::is_same_v<SV,typ::IsOSeg> ) // keep orientation
+		if( _ptS2 < _ptS1 )
+			return SegVec<SV,FPT>( ppt2.second, ppt1.first );
+
+	return SegVec<SV,FPT>( ppt1.first, ppt2.second );
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 358c255dc012e60b1932ad6231931e4374036858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 04/74] fix: a Segment built from an OSegment must have its
 points ordered

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e666868..9d3bfdc 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4942,7 +4942,7 @@ Please note that the source (points) floating-point type is lost
 			( std::is_same_v<SV,typ::IsOSeg> && std::is_same_v<SV2,typ::IsOSeg> ) ),
 			"Cannot build a OSegment from a Segment"
 		);
-		if constexpr( std::is_same_v<SV2,typ::IsSegment> )
+		if constexpr( std::is_same_v<SV,typ::IsSegment> )
 			priv::fix_order( _ptS1, _ptS2 );
 	}
 
-- 
2.43.0


From 0750e414f646f52e40db78db2de19249bb6cfb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 05/74] fix: lines were transformed with a stale inverse after
 set(), value(), getRaw(), transpose() or init() on a homography

---
 homog2d.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9d3bfdc..330b87f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2036,6 +2036,7 @@ private:
 private:
 	mutable bool _hasChanged   = true;
 	mutable std::unique_ptr<detail::Matrix_<FPT>> _hmt; ///< used to store \f$ H^{-1} \f$, but only if required
+	mutable detail::matrix_t<FPT> _hmtSrc{};                  ///< the values from which \c _hmt was computed (these can be edited directly, see detail::Matrix_)
 
 	friend std::ostream& operator << ( std::ostream& f, const Hmatrix_& h )
 	{
@@ -9695,11 +9696,12 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 		h._hasChanged = true;
 	}
 
-	if( h._hasChanged )                  // if homography has changed, recompute inverse and transposed
+	if( h._hasChanged || h._hmtSrc != h.getRaw() ) // if homography has changed, recompute inverse and transposed
 	{
 		auto hi = h;
 		auto mat_inv = hi.inverse().transpose();
 		*h._hmt = mat_inv;
+		h._hmtSrc = h.getRaw();
 		h._hasChanged = false;
 	}
 
-- 
2.43.0


From f08ee01ef81900b677cc477037ef36d7f16fbfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 06/74] fix: homography comparison used a stale normalization
 flag after direct edition or assignment

---
 homog2d.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 330b87f..69d8e61 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1492,7 +1492,7 @@ public:
 		_isNormalized = other._isNormalized;
 	}
 
-	matrix_t<FPT>&       getRaw()       { return _mdata; }
+	matrix_t<FPT>&       getRaw()       { _isNormalized = false; return _mdata; }
 	const matrix_t<FPT>& getRaw() const { return _mdata; }
 
 	template<typename T>
@@ -1502,6 +1502,7 @@ public:
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
 		_mdata[r][c] = v;
+		_isNormalized = false;
 	}
 
 	const FPT& value( size_t r, size_t c ) const
@@ -1516,6 +1517,7 @@ public:
 		#ifndef HOMOG2D_NOCHECKS
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
+		_isNormalized = false;
 		return _mdata[r][c];
 	}
 
@@ -1789,9 +1791,7 @@ Thus some assert can get triggered elsewhere.
 		: detail::Matrix_<FPT>( other)
 		, _hasChanged   ( true )
 		, _hmt          (  nullptr )
-	{
-		detail::Matrix_<FPT>::getRaw() = other.getRaw();
-	}
+	{}
 
 #ifdef HOMOG2D_USE_OPENCV
 /// Constructor used to initialise with a cv::Mat, call the assignment operator
@@ -1807,7 +1807,10 @@ Thus some assert can get triggered elsewhere.
 	Hmatrix_& operator = ( const Hmatrix_<M,FPT>& other )
 	{
 		if( this != &other )
-			detail::Matrix_<FPT>::getRaw() = other.getRaw();
+		{
+			detail::Matrix_<FPT>::_mdata = other._mdata;
+			detail::Matrix_<FPT>::_isNormalized = other._isNormalized;
+		}
 		_hasChanged = true;
 		return *this;
 	}
-- 
2.43.0


From 8ced226003ce311ff4271561d25bf1536a90170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 07/74] fix: applying a homography to an OSegment lost its
 orientation

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 69d8e61..99625ae 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9714,15 +9714,15 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 	return out;
 }
 
-/// Apply homography to a Segment
+/// Apply homography to a Segment or an OSegment (orientation is preserved)
 template<typename SV,typename FPT1,typename FPT2>
-Segment_<FPT1>
+base::SegVec<SV,FPT1>
 operator * ( const Homogr_<FPT1>& h, const base::SegVec<SV,FPT2>& seg )
 {
 	const auto& pts = seg.getPts();
 	Point2d_<FPT1> pt1 = h * pts.first;
 	Point2d_<FPT1> pt2 = h * pts.second;
-	return base::SegVec<SV,FPT2>( pt1, pt2 );
+	return base::SegVec<SV,FPT1>( pt1, pt2 );
 }
 
 /// Apply homography to a Polyline
-- 
2.43.0


From 2bd31b71fa475418e44415661e6536674ae2cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 08/74] fix: angle of an ellipse with a vertical major axis was
 90 radians

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 99625ae..b0e530e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8550,7 +8550,7 @@ Ellipse_<FPT>::p_computeParams() const
 	if( homog2d_abs(B) < thr::nullDenom() )
 	{
 		if( A > C )
-			par.theta = 90.;
+			par.theta = M_PI / 2.;
 	}
 	else
 	{
-- 
2.43.0


From 24dd648b433be43f07c397222d549f4f4904f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 09/74] fix: OSegment::intersects( Segment ) did not build

---
 homog2d.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b0e530e..3578ea6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8215,12 +8215,9 @@ detail::Intersect<detail::Inters_1,FPT>
 SegVec<SV,FPT>::intersects( const SegVec<SV2,FPT2>& s2 ) const
 {
 //	HOMOG2D_START;
-	if( *this == s2 )              // same segment => no intersection
-		return detail::Intersect<detail::Inters_1,FPT>();
-
 	Line2d_<HOMOG2D_INUMTYPE> l1 = getLine();
 	Line2d_<HOMOG2D_INUMTYPE> l2 = s2.getLine();
-	if( l1.isParallelTo( l2 ) )                            // if parallel,
+	if( l1.isParallelTo( l2 ) )                            // if parallel (includes the case of identical segments),
 		return detail::Intersect<detail::Inters_1,FPT>();  // then, no intersection
 
 	const auto& ptA1 = getPts().first;
-- 
2.43.0


From baf15e43ff3fc4a3a7cd5aea6d993f2963bfeb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 10/74] fix: intersection of tangent or concentric circles
 returned NaN points

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 3578ea6..4eb9802 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5827,12 +5827,13 @@ Circle_<FPT>::intersects( const Circle_<FPT2>& other ) const
 	if( d_squared > r1*r1 + r2*r2 + (HOMOG2D_INUMTYPE)2.*r1*r2 )              // no intersection
 		return detail::IntersectM<FPT>();
 
-	if( d_squared < ( r1*r1 + r2*r2 - (HOMOG2D_INUMTYPE)2.*r1*r2 ) )          // no intersection: one circle inside the other
+	if( d_squared < (r1-r2)*(r1-r2) )                                         // no intersection: one circle inside the other
 		return detail::IntersectM<FPT>();
 
 	auto d = homog2d_sqrt( d_squared );
 	auto a = (r1*r1 - r2*r2 + d_squared) / (HOMOG2D_INUMTYPE)2. / d;
-	auto h = homog2d_sqrt( r1*r1 - a*a );
+	auto h_squared = r1*r1 - a*a;                                             // tangent circles: rounding can make
+	auto h = h_squared > 0. ? homog2d_sqrt( h_squared ) : (HOMOG2D_INUMTYPE)0.; // this slightly negative
 
 	Point2d_<FPT> P0(
 		( x2 - x1 ) * a / d + x1,
-- 
2.43.0


From 2321123a6f64003ae1220bad444bf74ee20a2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 11/74] fix: segment/circle intersection missed a point when
 one end of the segment is on the circle

---
 homog2d.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4eb9802..6e6b745 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8290,7 +8290,7 @@ That makes 6 different situations to handle:
   - S4A: if line does NOT intersects circle, no intersection pts
   - S4B: if line does intersects circle, and intersections point in segment area => 2 intersection pts
   - S4C: if line does intersects circle, and intersections point NOT in segment area => no intersection pts
- - S5: PO-PE => 1 intersection
+ - S5: PO-PE => 1 intersection, or 2 if the segment also goes through the circle
  - S6: PE-PE => 2 intersections
 */
 template<typename SV,typename FPT>
@@ -8351,6 +8351,14 @@ SegVec<SV,FPT>::intersects( const Circle_<FPT2>& circle ) const
 	if( tag_ptS2 == PtTag::OnEdge )
 		out.add( _ptS2 );
 
+	if( tag_ptS1 == PtTag::Outside || tag_ptS2 == PtTag::Outside ) // one outside, the other on edge
+	{
+		const auto& pe = ( tag_ptS1 == PtTag::OnEdge ? _ptS1 : _ptS2 );
+		const auto& pi = ( pe.distTo( p1 ) < pe.distTo( p2 ) ? p2 : p1 ); // the other intersection point
+		auto sum = _ptS1.distTo( pi ) + _ptS2.distTo( pi );
+		if( pi != pe && homog2d_abs( sum-length() ) < thr::nullDistance() )
+			out.add( pi );
+	}
 	return out;
 }
 
-- 
2.43.0


From e4c80ebc5255a7cbb301fb264be0f020b9804329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 12/74] fix: a point aligned with a side of a polygon was
 reported as not inside, and aligned vertices could exhaust the search

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6e6b745..f45b104 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9391,7 +9391,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 
 // step 2: check if point is lying on one of the segments. If so, return false;
 	for( auto seg: poly.getSegs() )
-		if( seg.getLine().distTo( *this ) < thr::nullDistance() )
+		if( this->distTo( seg ) < thr::nullDistance() )
 				return false;
 
 	auto segarr = bbox.getExtended().getSegs();
@@ -9405,6 +9405,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 		{
 			Segment_<HOMOG2D_INUMTYPE> seg_ref( *this, seg_bb[i].getCenter() );
 
+			tooClose = false;
 			auto poly_pts = poly.getPts();
 			for( size_t j=0; j<poly_pts.size() && !tooClose; j++  )   // make sure that every point of the polyline is not on the reference segment
 			{
-- 
2.43.0


From fae6fd92f04dd827e796185267015c809f8a25bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 13/74] fix: point in polygon ignored sides crossed under a
 very small angle

---
 homog2d.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f45b104..252d3a7 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9415,10 +9415,23 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 			}
 			if( !tooClose )     // if no polyline points
 			{                   // was found on the segment supporting line
+				// count the sides that are crossed. Not done with intersects(), as it ignores crossings having a very small angle
+				auto onLeft = []( const auto& p1, const auto& p2, const auto& p )      // lambda
+				{
+					auto x0 = static_cast<HOMOG2D_INUMTYPE>( p1.getX() );
+					auto y0 = static_cast<HOMOG2D_INUMTYPE>( p1.getY() );
+					return (p2.getX()-x0) * (p.getY()-y0) - (p2.getY()-y0) * (p.getX()-x0) > 0.;
+				};
+				auto ref = seg_ref.getPts();
 				size_t c = 0;
 				for( auto seg: poly.getSegs() )  // iterate on the polyline segments
 				{
-					if( seg.intersects(seg_ref)() )
+					auto pts = seg.getPts();
+					if(
+						onLeft( pts.first, pts.second, ref.first ) != onLeft( pts.first, pts.second, ref.second )
+						&&
+						onLeft( ref.first, ref.second, pts.first ) != onLeft( ref.first, ref.second, pts.second )
+					)
 						c++;
 				}
 				return static_cast<bool>( c%2 );
-- 
2.43.0


From ae93dd2e841dfe09679bbc1cf0ad161618a3676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:07 +0000
Subject: [PATCH 14/74] fix: union and intersection area of two rectangles of
 different numerical types did not build

---
 homog2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 252d3a7..275e304 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7721,8 +7721,9 @@ Algorithm:
 template<typename FPT>
 template<typename FPT2>
 detail::RectArea<FPT>
-FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
+FRect_<FPT>::intersectArea( const FRect_<FPT2>& rect ) const
 {
+	const FRect_<FPT> other( rect ); // same numerical type for both rectangles
 	if( *this == other )                      // if same rectangles, then
 		return detail::RectArea<FPT>(other);  // the intersection area is the rectangle
 
@@ -8093,9 +8094,10 @@ see PolylineBase::minimize()
 template<typename FPT>
 template<typename FPT2>
 CPolyline_<FPT>
-FRect_<FPT>::unionArea( const FRect_<FPT2>& other ) const
+FRect_<FPT>::unionArea( const FRect_<FPT2>& rect ) const
 {
 	using namespace priv::runion;
+	const FRect_<FPT> other( rect ); // same numerical type for both rectangles
 
 	if( *this == other )                  // if same rectangles, then
 		return CPolyline_<FPT>( other );   // returns one of them
-- 
2.43.0


From eaa9100f26222483f50e4c88d3738e9dec5b875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 15/74] fix: union of rectangles touching by a side read
 outside of its table

---
 homog2d.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 275e304..4f4efa7 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7840,16 +7840,22 @@ struct Index
 {
 	T       _value;
 	uint8_t _rect_idx=0;   // 0 means none, will be 1 or 2
+	bool    _isEnd=false;  // true if upper bound of the rectangle
 
 	Index() = default;
-	Index( T v, uint8_t r )
-		: _value(v), _rect_idx(r)
+	Index( T v, uint8_t r, bool isEnd )
+		: _value(v), _rect_idx(r), _isEnd(isEnd)
 	{}
+/// If same value, lower bounds go first, so that rectangles that only share a side or a corner do overlap in the table
 	friend bool operator < ( const Index& i1, const Index& i2 )
 	{
 
 		if( i1._value == i2._value )
+		{
+			if( i1._isEnd != i2._isEnd )
+				return i2._isEnd;
 			return i1._rect_idx < i2._rect_idx;
+		}
 		return i1._value < i2._value;
 	}
 	friend std::ostream& operator << ( std::ostream& f, const Index& idx )
@@ -8132,19 +8138,21 @@ FRect_<FPT>::unionArea( const FRect_<FPT2>& rect ) const
 // step 1: build vectors of coordinates and sort them
 	std::array<Index<FPT>,4> vx, vy;
 	int i=0;
-	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1 );
-	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1 );
-	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2 );
-	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2 );
+	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1, false );
+	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1, true );
+	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2, false );
+	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2, true );
 
 	i=0;
-	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1 );
-	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1 );
-	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2 );
-	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2 );
+	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1, false );
+	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1, true );
+	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2, false );
+	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2, true );
 
 	std::sort( vx.begin(), vx.end() );
 	std::sort( vy.begin(), vy.end() );
+	if( vx[1]._isEnd || vy[1]._isEnd ) // rectangles are apart, although some intersection
+		return CPolyline_<FPT>();      // was found (within numerical accuracy)
 //	priv::printArray( vx, "vx" ); priv::printArray( vy, "vy");
 
 // step 2: fill table\n";
-- 
2.43.0


From c9ccbaa96556c73fa50f7c4639bebef839eb70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:35 +0000
Subject: [PATCH 16/74] fix: intersection of rectangles sharing a side could
 hold the same point twice

---
 homog2d.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4f4efa7..b9e1fcd 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3115,13 +3115,13 @@ private:
 
 /// Intersection of FRect vs FRect or Circle
 /**
-- We use a \c std::set to avoid having multiple times the same point.
+- We check points for equality to avoid having multiple times the same point.
 - second arg is used to fetch the indexes of intersecting segments, when needed
 */
 	template<typename T>
 	detail::IntersectM<FPT> p_intersects_R_C( const T& other ) const
 	{
-		std::set<Point2d_<FPT>> pts;
+		std::vector<Point2d_<FPT>> pts;
 		for( const auto& rseg: getSegs() )
 		{
 			auto inters = rseg.intersects( other ); // call of Segment/FRect => FRect/Segment, or Segment/Circle
@@ -3129,15 +3129,13 @@ private:
 			{
 				auto vpts = inters.get();
 				assert( vpts.size() < 3 );
-				if( vpts.size() > 0 )
-					pts.insert( vpts[0] );
-				if( vpts.size() > 1 )
-					pts.insert( vpts[1] );
+				for( const auto& pt: vpts )
+					if( std::find( pts.begin(), pts.end(), pt ) == pts.end() )
+						pts.push_back( pt );
 			}
 		}
-		detail::IntersectM<FPT> out; // convert std::set to output container
-		for( const auto& elem: pts )
-			out.add( elem );
+		detail::IntersectM<FPT> out;
+		out.add( pts );
 		return out;
 	}
 
-- 
2.43.0


From baf505e4cc0bdbe29f120a0119adf92c8b339f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 17/74] fix: intersection area of rectangles sharing a side
 asserted, threw or was wrong with coordinates that are not exactly
 representable

---
 homog2d.hpp | 196 +++-------------------------------------------------
 1 file changed, 9 insertions(+), 187 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b9e1fcd..83becca 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2733,36 +2733,6 @@ public:
 	{}
 ///@}
 
-private:
-/// Private constructor from 4 points, used in intersectArea( const FRect_& )
-	template<typename T>
-	FRect_(
-		const Point2d_<T>& pt1,
-		const Point2d_<T>& pt2,
-		const Point2d_<T>& pt3,
-		const Point2d_<T>& pt4
-	)
-	{
-//		HOMOG2D_LOG( "pt1" << pt1 << " pt2="<< pt2 << " pt3=" << pt3 << " pt4=" << pt4 );
-		auto x0 = std::min( pt1.getX(), pt2.getX() );
-		x0 = std::min( x0, pt3.getX() );
-		x0 = std::min( x0, pt4.getX() );
-		auto y0 = std::min( pt1.getY(), pt2.getY() );
-		y0 = std::min( y0, pt3.getY() );
-		y0 = std::min( y0, pt4.getY() );
-
-		auto x1 = std::max( pt1.getX(), pt2.getX() );
-		x1 = std::max( x1, pt3.getX() );
-		x1 = std::max( x1, pt4.getX() );
-		auto y1 = std::max( pt1.getY(), pt2.getY() );
-		y1 = std::max( y1, pt3.getY() );
-		y1 = std::max( y1, pt4.getY() );
-
-		_ptR1 = Point2d_<FPT>(x0,y0);
-		_ptR2 = Point2d_<FPT>(x1,y1);
-//		HOMOG2D_LOG( "ptR1=" <<_ptR1 << " _ptR2=" << _ptR2 );
-	}
-
 public:
 /// Assigns points \c pa and \c pb to rectangle
 	template<typename FPT1,typename FPT2>
@@ -3103,16 +3073,6 @@ public:
 	operator << ( std::ostream& f, const FRect_<T>& r );
 
 private:
-	template<typename FPT2>
-	std::vector<Point2d_<FPT>> p_pointsInside( const FRect_<FPT2>& other ) const
-	{
-		std::vector<Point2d_<FPT>> out;
-		for( const auto& pt: get4Pts() )
-			if( pt.isInside( other ) )
-				out.push_back( pt );
-		return out;
-	}
-
 /// Intersection of FRect vs FRect or Circle
 /**
 - We check points for equality to avoid having multiple times the same point.
@@ -7666,55 +7626,8 @@ FRect_<FPT>::rotate( Rotate rot )
 \return An object of type detail::RectArea, that can be checked for success using the ()
 operator, and if success, will hold the resulting FRect_
 
-Algorithm:
-
-4 situations need to be considered, depending on the number of intersection points:
-
-- A: 2 intersection points on same segment => we have 2 points inside.
-\verbatim
-  +------+                   +------+
-  |      |                   |      |
-  |   +--+-----+          +--+----+ |
-  |   |  |     |          |  |    | |
-  |   |  |     |    or    |  |    | |  or ...
-  |   +--+-----+          +--+----+ |
-  |      |                   |      |
-  +------+                   +------+
-\endverbatim
-
-- B: 2 intersection points on different segments => for each rectangle, 1 point is inside the other.
-\verbatim
-  +------+
-  |      |
-  |      |
-  |   +--+-----+
-  |   |  |     |   or ...
-  +---+--+     |
-      |        |
-      +--------+
-\endverbatim
-
-- C: 3 points
-\verbatim
-  +------+-----+
-  |      |     |
-  |      |     |
-  +------+-----+
-  |      |
-  +------+
-\endverbatim
-
-- D: 4 intersection points: the intersection rectangle is made of these 4 points
-\verbatim
-     +------+
-     |      |
-  +--+------+-----+
-  |  |      |     |
-  |  |      |     |
-  +--+------+-----+
-     |      |
-     +------+
-\endverbatim
+The intersection is computed from the coordinates of the rectangles and not from their intersection points, because
+these are only known up to rounding errors, so their number and position can be wrong if the rectangles share a side.
 */
 template<typename FPT>
 template<typename FPT2>
@@ -7722,106 +7635,15 @@ detail::RectArea<FPT>
 FRect_<FPT>::intersectArea( const FRect_<FPT2>& rect ) const
 {
 	const FRect_<FPT> other( rect ); // same numerical type for both rectangles
-	if( *this == other )                      // if same rectangles, then
-		return detail::RectArea<FPT>(other);  // the intersection area is the rectangle
-
-	auto inter = this->intersects( other );
-
-	if( !inter() )                        // rectangles do not intersect
-	{
-		if( this->isInside( other ) )
-			return detail::RectArea<FPT>(*this);
-		if( other.isInside( *this ) )
-			return detail::RectArea<FPT>(other);
-		return detail::RectArea<FPT>();
-	}
+	auto x0 = std::max( _ptR1.getX(), other._ptR1.getX() );
+	auto y0 = std::max( _ptR1.getY(), other._ptR1.getY() );
+	auto x1 = std::min( _ptR2.getX(), other._ptR2.getX() );
+	auto y1 = std::min( _ptR2.getY(), other._ptR2.getY() );
 
-	if( inter.size() < 2 )                // only one intersection point
-		return detail::RectArea<FPT>();   // => no intersection area!
-
-	if( inter.size() == 4 )  // 4 intersection points => case "D"
-		return detail::RectArea<FPT>(FRect_<FPT>( inter.get().at(0), inter.get().at(3) ) );
-
-	if( inter.size() == 3 )  // 3 intersection points => case "C"
-	{
-		auto v = inter.get();
+	if( x1-x0 < thr::nullOrthogDistance() || y1-y0 < thr::nullOrthogDistance() )
+		return detail::RectArea<FPT>();   // rectangles are apart, or only share a side or a corner
 
-		auto xmin = std::min( v[0].getX(), std::min( v[1].getX(),v[2].getX() ) );
-		auto ymin = std::min( v[0].getY(), std::min( v[1].getY(),v[2].getY() ) );
-		auto xmax = std::max( v[0].getX(), std::max( v[1].getX(),v[2].getX() ) );
-		auto ymax = std::max( v[0].getY(), std::max( v[1].getY(),v[2].getY() ) );
-#ifndef HOMOG2D_DEBUGMODE
-		assert( xmax-xmin > thr::nullOrthogDistance() );
-		assert( ymax-ymin > thr::nullOrthogDistance() );
-#else
-		HOMOG2D_DEBUG_ASSERT(
-			( ( xmax-xmin > thr::nullOrthogDistance() )
-			&&
-			( ymax-ymin > thr::nullOrthogDistance() )) ,
-			std::scientific
-			<< "this=" << *this << " other=" << other
-			<< "\nxmax=" << xmax << " xmin=" << xmin
-			<< "\nymax=" << ymax << " ymin=" << ymin
-			<< "\nnod=" << thr::nullOrthogDistance()
-		);
-#endif
-		return detail::RectArea<FPT>( FRect_<FPT>( xmin, ymin, xmax,ymax ) );
-	}
-/*------------------------
- If we get to this point, we have 2 intersection points
-------------------------*/
-#ifndef HOMOG2D_DEBUGMODE
-	assert( inter.size() == 2 );
-#else
-/*	HOMOG2D_DEBUG_ASSERT(
-		inter.size() == 2,
-		"inter.size()=" << inter.size() << "\n-this=" << *this << "\n-other=" << other
-		<<"\n-inter:" << inter
-	);*/
-#endif
-	const auto& r1 = *this;
-	const auto& r2 = other;
-//	HOMOG2D_LOG( "r1="<<r1 << " r2="<<r2 );
-	auto v1 = r1.p_pointsInside( r2 );
-	auto v2 = r2.p_pointsInside( r1 );
-	auto c1 = v1.size();
-	auto c2 = v2.size();
-//	HOMOG2D_LOG( "c1=" << c1 << " c2=" << c2 );
-
-	if( c1==0 && c2==0 ) // unable, rectangles share a segment
-		return detail::RectArea<FPT>();
-
-	assert(
-		( c1==1 && c2==1 )
-		||
-		( c1==0 && c2==2 )
-		||
-		( c2==0 && c1==2 )
-	);
-	if( c1==1 || c2==1 ) // only 1 point inside => the rectangle is defined by the intersection points
-		return detail::RectArea<FPT>( FRect_<FPT>( inter.get().at(0), inter.get().at(1) ) );
-
-// here: 2 points inside, then build rectangle using the 4 points:
-// the 2 inside, and the two intersection points
-	assert( c1 == 2 || c2 == 2 );
-
-	if( c1 == 2 )
-		return detail::RectArea<FPT>(
-			FRect_<FPT>(
-				inter.get().at(0),
-				inter.get().at(1),
-				v1.at(0),
-				v1.at(1)
-			)
-		);
-	return detail::RectArea<FPT>(
-		FRect_<FPT>(
-			inter.get().at(0),
-			inter.get().at(1),
-			v2.at(0),
-			v2.at(1)
-		)
-	);
+	return detail::RectArea<FPT>( FRect_<FPT>( x0, y0, x1, y1 ) );
 }
 
 namespace priv {
-- 
2.43.0


From 71beb2befa289ed896f508f9f39dafce7f7a7692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:36 +0000
Subject: [PATCH 18/74] fix: centroid of a polyline was not updated by
 translate() and moveTo()

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 83becca..d0bc948 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6383,6 +6383,7 @@ Also use the areCollinear() function
 		HOMOG2D_CHECK_IS_NUMBER( TY );
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
+		_attribs._centroid.setBad(); // other attributes do not depend on the position
 	}
 
 /// Translate Polyline, using a pair of numerical values
@@ -6414,6 +6415,7 @@ Also use the areCollinear() function
 		auto dy = new_org.getY() - getPoint(0).getY();
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
+		_attribs._centroid.setBad(); // other attributes do not depend on the position
 	}
 
 /// Set from vector/array/list of points (discards previous points)
-- 
2.43.0


From abf93054386c9f7b85ac26b25508ce908ad26959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:36 +0000
Subject: [PATCH 19/74] fix: isConvex() with aligned vertices depended on the
 orientation of the polygon

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index d0bc948..eae7938 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7420,6 +7420,8 @@ PolylineBase<PLT,FPT>::isConvex() const
 		auto dy2 = pt2.getY() - pt1.getY();
 
 		auto crossproduct = dx1*dy2 - dy1*dx2;
+		if( homog2d_abs(crossproduct) < thr::nullDistance() * pt0.distTo(pt2) ) // point on the line
+			continue;                                // going through the other ones: no turn here
 		if( sign == 0 )                          // initial sign value
 			sign = (crossproduct>0 ? +1 : -1);
 		else
-- 
2.43.0


From 53b5b5946430ab15c640e353a3f382cc09ce4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:36 +0000
Subject: [PATCH 20/74] fix: closed polylines going back over themselves (all
 points aligned) were considered as simple polygons, with a NaN centroid

---
 homog2d.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index eae7938..868e4eb 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7377,6 +7377,20 @@ PolylineBase<PLT,FPT>::isSimple() const
 				i++;
 			}
 			while( i<nbs && notDone );
+
+			for( i=0; i<nbs && !hasIntersections; i++ ) // consecutive segments must not go back over each other
+			{
+				const auto& pt0 = _plinevec[ i==0 ? nbs-1 : i-1 ];
+				const auto& pt1 = _plinevec[ i ];
+				const auto& pt2 = _plinevec[ i==nbs-1 ? 0 : i+1 ];
+				auto dx1 = pt0.getX() - pt1.getX();
+				auto dy1 = pt0.getY() - pt1.getY();
+				auto dx2 = pt2.getX() - pt1.getX();
+				auto dy2 = pt2.getY() - pt1.getY();
+				auto maxlen = std::max( pt1.distTo(pt0), pt1.distTo(pt2) );
+				if( dx1*dx2 + dy1*dy2 > 0 && homog2d_abs( dx1*dy2 - dy1*dx2 ) < thr::nullDistance() * maxlen )
+					hasIntersections = true;
+			}
 			_attribs._isSimplePolyg.set( !hasIntersections );
 		}
 		return _attribs._isSimplePolyg.value();
-- 
2.43.0


From 9081dc653a8e42f0c9ab8003d5467599d10e9e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 21/74] fix: equality of closed polylines going through their
 smallest point several times, or aligned there, depended on the first point
 and direction

---
 homog2d.hpp | 63 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 868e4eb..6ecdfe7 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7561,27 +7561,60 @@ base::PolylineBase<PLT,FPT>::p_normalizePoly() const
 	{
 		if constexpr ( std::is_same_v<PLT,typ::IsClosed> )
 		{
-			auto minpos = std::min_element( _plinevec.begin(), _plinevec.end() );
-			std::rotate( _plinevec.begin(), minpos, _plinevec.end() );
+			const auto nbpts = size();
+			const auto minpt = *std::min_element( _plinevec.begin(), _plinevec.end() );
+			auto isMinPt = [&]( size_t i ){ return !( minpt < _plinevec[i] ); };
 
-			auto ptB = _plinevec[0];
-			auto ptA = _plinevec[1];
-			auto ptC = _plinevec[size()-1];
+		// all the possible sequences start with the smallest point, that can be there several times
+			std::vector<size_t> vstart;
+			for( size_t i=0; i<nbpts; i++ )
+				if( isMinPt(i) )
+					vstart.push_back( i );
+
+			size_t istart = vstart.front();
+			bool doReverse = false;
+
+			const auto& ptB = _plinevec[istart];
+			const auto& ptA = _plinevec[(istart+1)%nbpts];
+			const auto& ptC = _plinevec[(istart+nbpts-1)%nbpts];
 
-			HOMOG2D_INUMTYPE xA = ptA.getX();
 			HOMOG2D_INUMTYPE xB = ptB.getX();
-			HOMOG2D_INUMTYPE xC = ptC.getX();
-			HOMOG2D_INUMTYPE yA = ptA.getY();
 			HOMOG2D_INUMTYPE yB = ptB.getY();
-			HOMOG2D_INUMTYPE yC = ptC.getY();
-
-			auto det = (xB-xA)*(yC-yA) - (xC-xA)*(yB-yA);
-			if( det < 0)
+			HOMOG2D_INUMTYPE xA = ptA.getX() - xB;
+			HOMOG2D_INUMTYPE xC = ptC.getX() - xB;
+			HOMOG2D_INUMTYPE yA = ptA.getY() - yB;
+			HOMOG2D_INUMTYPE yC = ptC.getY() - yB;
+
+			auto det = xC*yA - xA*yC;
+			auto len2 = (xA*xA + yA*yA) * (xC*xC + yC*yC);
+			if( vstart.size() == 1 && homog2d_abs(det) > thr::nullDistance() * homog2d_sqrt(len2) )
+				doReverse = ( det < 0 );
+			else          // no orientation here: take the smallest sequence
 			{
-				std::reverse( _plinevec.begin(), _plinevec.end() );
-				minpos = std::min_element( _plinevec.begin(), _plinevec.end() );
-				std::rotate( _plinevec.begin(), minpos, _plinevec.end() );
+				auto getPt = [&]( size_t start, bool reversed, size_t i ) -> const Point2d_<FPT>&
+				{
+					return _plinevec[ ( start + ( reversed ? nbpts-i : i ) ) % nbpts ];
+				};
+				for( auto start: vstart )
+					for( bool reversed: { false, true } )
+						for( size_t i=0; i<nbpts; i++ )
+						{
+							const auto& p1 = getPt( start,  reversed,  i );
+							const auto& p2 = getPt( istart, doReverse, i );
+							if( p2 < p1 )
+								break;
+							if( p1 < p2 )
+							{
+								istart    = start;
+								doReverse = reversed;
+								break;
+							}
+						}
 			}
+
+			std::rotate( _plinevec.begin(), _plinevec.begin()+istart, _plinevec.end() );
+			if( doReverse )
+				std::reverse( _plinevec.begin()+1, _plinevec.end() );
 		}
 		else
 		{
-- 
2.43.0


From 7f92dbbb1b292f6026f5cc5a0d0c6edd42b29a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:52 +0000
Subject: [PATCH 22/74] fix: minimize() kept aligned points on vertical paths
 known up to rounding errors

---
 homog2d.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6ecdfe7..124683b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7299,10 +7299,13 @@ PolylineBase<PLT,FPT>::p_minimizePL( PolylineBase<PLT,FPT>& pl, size_t istart, s
 		auto vy1 = pnext.getY() - p0.getY();
 		auto vx2 = p0.getX() - pprev.getX();
 		auto vy2 = p0.getY() - pprev.getY();
-		auto a1 = std::atan2( vx1, vy1 );
-		auto a2 = std::atan2( vx2, vy2 );
+		HOMOG2D_INUMTYPE a1 = std::atan2( vx1, vy1 );
+		HOMOG2D_INUMTYPE a2 = std::atan2( vx2, vy2 );
 
-		if( homog2d_abs(a1-a2) < thr::nullAngleValue() )
+		auto diff = homog2d_abs(a1-a2);
+		if( diff > static_cast<HOMOG2D_INUMTYPE>(M_PI) )    // values close to -PI and +PI hold the same direction
+			diff = 2*static_cast<HOMOG2D_INUMTYPE>(M_PI) - diff;
+		if( diff < thr::nullAngleValue() )
 			ptset.push_back( i );
 	}
 
-- 
2.43.0


From 9a76f14cb1557b79aaecfa1c6fbbafc88681dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 23/74] fix: convex hull of a set holding duplicates or aligned
 points could throw, go back over itself or read an empty stack, and could not
 be computed from a list or an array

---
 homog2d.hpp | 99 +++++++++++++++++++++++++++++------------------------
 1 file changed, 55 insertions(+), 44 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 124683b..0dc645a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11391,20 +11391,21 @@ sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 	std::swap( out[piv_idx], out[0] );
 	auto pt0 = in[piv_idx];
 
-// step 2: sort points by angle of lines between the current point and pivot point
-	std::sort(
+// step 2: sort points by angle of lines between the current point and pivot point, and by distance if same angle
+	std::vector<std::pair<HOMOG2D_INUMTYPE,HOMOG2D_INUMTYPE>> keys( in.size() );
+	for( size_t i=0; i<in.size(); i++ )
+	{
+		HOMOG2D_INUMTYPE dx = static_cast<HOMOG2D_INUMTYPE>( in[i].getX() ) - pt0.getX();
+		HOMOG2D_INUMTYPE dy = static_cast<HOMOG2D_INUMTYPE>( in[i].getY() ) - pt0.getY();
+		keys[i] = std::make_pair( std::atan2( dy, dx ), dx*dx + dy*dy );
+	}
+	std::stable_sort(
 		out.begin()+1,
 		out.end(),
 		[&]                  // lambda
 		( size_t i1, size_t i2 )
 		{
-			auto pt1 = in[i1];
-			auto pt2 = in[i2];
-			auto dx1 = pt1.getX() - pt0.getX();
-			auto dy1 = pt1.getY() - pt0.getY();
-			auto dx2 = pt2.getX() - pt0.getX();
-			auto dy2 = pt2.getY() - pt0.getY();
-			return ((dx1 * dy2 - dx2 * dy1) > 0);
+			return keys[i1] < keys[i2];
 		}
 	);
 	return out;
@@ -11469,8 +11470,6 @@ namespace base {
 /// Computes and returns the convex hull of a set of points (free function)
 /**
 - Graham scan algorithm: https://en.wikipedia.org/wiki/Graham_scan
-
-\todo 20230728: make this function accept also std::array and std::list (using Sfinae alogn with trait::IsContainer)
 */
 template<typename FPT>
 CPolyline_<FPT>
@@ -11485,44 +11484,42 @@ convexHull( const std::vector<Point2d_<FPT>>& input )
 // step 2: sort points by angle of lines between the current point and pivot point
 	auto v2 = priv::chull::sortPoints( input, pivot_idx );
 
-	std::stack<size_t> firstPoint;
-	priv::chull::Mystack hull;
-	hull.push( v2[0] );
-	hull.push( v2[1] );
-	hull.push( v2[2] );
-
-	firstPoint.push( 0 );
-	firstPoint.push( 1 );
-
-// step 3: iterate
-	size_t idx1 = 1;
-	size_t idx2 = 2;
-	size_t idx3 = 3;
-	do
+// step 3: remove duplicates of pivot and, if several points are seen from it under the same angle, keep only the farthest
+	const auto& pivot = input.at( v2[0] );
+	std::vector<size_t> v3{ v2[0] };
+	for( size_t i=1; i<v2.size(); i++ )
 	{
-//		HOMOG2D_LOG( "** loop start, idx1=" << idx1 << ", idx2=" << idx2  << ", idx3=" << idx3 << ", hull " << hull.getVect() );
-		auto p = input.at( v2[idx1] );
-		auto q = input.at( v2[idx2] );
-		auto r = input.at( v2[idx3] );
-		auto orient = priv::chull::orientation( p, q, r );
-//		HOMOG2D_LOG( "considering pts: " << v2[idx1] << "," << v2[idx2] << "," << v2[idx3] << ": or = " << orient );
-		if( orient != 1 )
+		const auto& pt = input.at( v2[i] );
+		if( pt == pivot )
+			continue;
+		if( v3.size() > 1 )
 		{
-			hull.push( v2[idx3] );
-			idx1 = idx2;
-			idx2 = idx3;
-			idx3++;
-			firstPoint.push( idx1 );
+			const OSegment_<HOMOG2D_INUMTYPE> seg1( pivot, input.at( v3.back() ) );
+			const OSegment_<HOMOG2D_INUMTYPE> seg2( pivot, pt );
+			const auto len1 = seg1.length();
+			const auto len2 = seg2.length();
+			if( homog2d_abs( detail::crossProductV( seg1, seg2 ) ) <= thr::nullDistance() * std::min( len1, len2 ) )
+			{
+				if( len2 > len1 )
+					v3.back() = v2[i];
+				continue;
+			}
 		}
-		else
-		{
+		v3.push_back( v2[i] );
+	}
+
+// step 4: iterate, only points where the path turns counterclockwise are kept
+	priv::chull::Mystack hull;
+	for( auto idx: v3 )
+	{
+		const auto& v = hull.getVect();
+		while(
+			v.size() > 1
+			&& priv::chull::orientation( input.at( v[v.size()-2] ), input.at( v[v.size()-1] ), input.at( idx ) ) != -1
+		)
 			hull.pop();
-			idx2=idx1; // idx3 stays the same
-			firstPoint.pop();
-			idx1 = firstPoint.top();
-		}
+		hull.push( idx );
 	}
-	while( idx3 < v2.size() );
 
 // final step: copy hull indexes to vector of points
 	const auto v = hull.getVect();
@@ -11541,6 +11538,20 @@ convexHull( const std::vector<Point2d_<FPT>>& input )
 	return CPolyline_<FPT>( vout );
 }
 
+/// Convex hull of points held in any other container (\c std::list, \c std::array), see above
+template<
+	typename T,
+	typename std::enable_if<
+		trait::IsContainer<T>::value,
+		T
+	>::type* = nullptr
+>
+auto
+convexHull( const T& input )
+{
+	return convexHull( std::vector<typename T::value_type>( std::begin(input), std::end(input) ) );
+}
+
 } // namespace base
 
 /// Return convex hull (member function implementation)
-- 
2.43.0


From c2d170912fc67df650439e3c42f485c1e867bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:38 +0000
Subject: [PATCH 24/74] fix: minimum enclosing circle could be too small,
 throw, or be the circumscribed circle for 3 points; did not build from a list

---
 homog2d.hpp | 176 +++++++++++++++++++++-------------------------------
 1 file changed, 71 insertions(+), 105 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0dc645a..1c306c6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -37,6 +37,7 @@ See https://github.com/skramm/homog2d
 #include <vector>
 #include <map>
 #include <stack>
+#include <random>
 #include <iomanip>
 #include <cassert>
 #include <sstream>
@@ -3351,16 +3352,6 @@ Use of Sfinae so it can be selected only for arithmetic types
 	>
 	void set( const T& );
 
-private:
-	template<typename T>             // helper function
-	Circle_<HOMOG2D_INUMTYPE>
-	p_WelzlHelper( std::vector<T>&, std::vector<T>, size_t ) const;
-
-	template<typename T>             // helper function
-	Circle_<HOMOG2D_INUMTYPE>
-	p_min_circle_trivial( const std::vector<T>& P ) const;
-
-public:
 /// Translate Circle
 	template<typename TX, typename TY>
 	void translate( TX dx, TY dy )
@@ -5593,95 +5584,70 @@ Circle_<FPT>::set(
 //------------------------------------------------------------------
 namespace priv {
 
-/// Free Function to check whether a circle encloses the given points
-template<typename FPT1,typename PT>
-bool is_valid_circle(
-	const Circle_<FPT1>&   circ,
-	const std::vector<PT>& pts
-)
+/// Holds the candidate circle, used to compute the Minimum Enclosing Circle, see Circle_<FPT>::set( const T& )
+/** (can have a null radius, thus this can not be a Circle_) */
+struct MecCircle
 {
-	for( const auto& pt: pts )
-		if( !pt.isInside( circ ) )
-			return false;
-	return true;
-}
+	HOMOG2D_INUMTYPE _x, _y, _rad;
 
-} // namespace priv
+	template<typename PT>
+	HOMOG2D_INUMTYPE distTo( const PT& pt ) const
+	{
+		auto dx = pt.getX() - _x;
+		auto dy = pt.getY() - _y;
+		return homog2d_sqrt( dx*dx + dy*dy );
+	}
+/// Returns true if \c pt is inside or on the edge of the circle
+	template<typename PT>
+	bool contains( const PT& pt ) const
+	{
+		return distTo( pt ) <= _rad + thr::nullDistance() * _rad;
+	}
+};
 
-//------------------------------------------------------------------
-/// Helper function for Circle_<FPT>::set( const T& )
-/**
-Returns the minimum enclosing circle for N <= 3
-*/
-template<typename FPT>
-template<typename T>
-Circle_<HOMOG2D_INUMTYPE>
-Circle_<FPT>::p_min_circle_trivial( const std::vector<T>& P ) const
+/// Returns smallest circle holding the 2 points
+template<typename PT>
+MecCircle
+getMec( const PT& p1, const PT& p2 )
 {
-	if( P.empty() )
-		return Circle_<HOMOG2D_INUMTYPE>(0.,0.,0.); // dummy circle of null radius
-	if( P.size() == 1 )
-		return Circle_<HOMOG2D_INUMTYPE>( P[0], 0. );
-	if( P.size() == 2 )
-		return Circle_<HOMOG2D_INUMTYPE>( P[0], P[1] );
-
-// To check if MEC can be determined by 2 points only
-	for( int i=0; i<3; i++ )
-		for( int j=i+1; j<3; j++ )
-		{
-			auto c = Circle_<HOMOG2D_INUMTYPE>( P[i], P[j] );
-			if( priv::is_valid_circle( c, P ) )
-				return c;
-		}
-	return Circle_<HOMOG2D_INUMTYPE>( P[0], P[1], P[2] ); // circle from 3 points
+	MecCircle c{ (p1.getX() + p2.getX()) / 2, (p1.getY() + p2.getY()) / 2, 0 };
+	c._rad = std::max( c.distTo(p1), c.distTo(p2) );
+	return c;
 }
 
-//------------------------------------------------------------------
-/// Helper function for Circle_<FPT>::set( const T& ), recursive
-/**
-Returns the MEC using Welzl's algorithm.
-Takes a set of input points P and a set R points on the circle boundary.
-
-\c T is the point type
- */
-template<typename FPT>
-template<typename T>
-Circle_<HOMOG2D_INUMTYPE>
-Circle_<FPT>::p_WelzlHelper(
-	std::vector<T>& P,  ///< input set of points
-	std::vector<T>  R,
-	size_t          n   ///< Number of points in P that are not yet processed
-) const
-{
-	// Base case when all points processed or |R| = 3
-	if( n == 0 || R.size() == 3 )
-		return p_min_circle_trivial( R );
-
-	// Pick a random point randomly
-	int idx = std::rand() % n;
-	auto p = P[idx];
-
-	// Put the picked point at the end of P
-	// since it's more efficient than
-	// deleting from the middle of the vector
-	std::swap( P[idx], P[n - 1] );
-
-	// Get the MEC circle d from the set of points P - {p}
-	auto d = p_WelzlHelper( P, R, n - 1 );
-	if( p.isInside( d ) )
-			return d;
-
-	// Otherwise, must be on the boundary of the MEC
-	R.push_back( p );
-
-	// Return the MEC for P - {p} and R U {p}
-	auto c = p_WelzlHelper( P, R, n - 1 );
+/// Returns the circle going through the 3 points, or the one holding the two farthest ones, if aligned
+template<typename PT>
+MecCircle
+getMec( const PT& p1, const PT& p2, const PT& p3 )
+{
+	auto dx2 = p2.getX() - p1.getX();
+	auto dy2 = p2.getY() - p1.getY();
+	auto dx3 = p3.getX() - p1.getX();
+	auto dy3 = p3.getY() - p1.getY();
+	auto det = ( dx2*dy3 - dx3*dy2 ) * 2;
+	auto sq2 = dx2*dx2 + dy2*dy2;
+	auto sq3 = dx3*dx3 + dy3*dy3;
+	if( homog2d_abs( det ) <= thr::nullOrthogDistance() * homog2d_sqrt( sq2*sq3 ) )
+	{
+		auto arr = getLargestDistancePoints( p1, p2, p3 );
+		auto ca = getMec( arr[0], arr[1] );
+		auto cb = getMec( arr[0], arr[2] );
+		return ca._rad > cb._rad ? ca : cb;
+	}
+	MecCircle c{
+		p1.getX() + ( dy3*sq2 - dy2*sq3 ) / det,
+		p1.getY() + ( dx2*sq3 - dx3*sq2 ) / det,
+		0
+	};
+	c._rad = std::max( c.distTo(p1), std::max( c.distTo(p2), c.distTo(p3) ) );
 	return c;
 }
 
+} // namespace priv
+
 //------------------------------------------------------------------
 /// Compute circle from a set of points (Minimum Enclosing Circle, aka MEC)
-/// using the Welzl algorithm
+/// using the Welzl algorithm (iterative version)
 /**
 \c T may be std::vector, std::array or std::list holding points
 
@@ -5703,26 +5669,26 @@ Circle_<FPT>::set( const T& pts )
 	if( pts.size() < 2 )
 		HOMOG2D_THROW_ERROR_1( "unable to build a circle from a single point" );
 
-	if( pts.size() == 2 )
-	{
-		set( pts[0], pts[1] );
-		return;
-	}
+	std::vector<Point2d_<HOMOG2D_INUMTYPE>> P( std::begin(pts), std::end(pts) );
+	std::shuffle( P.begin(), P.end(), std::minstd_rand() );
 
-	if( pts.size() == 3 ) // todo: convert pts to HOMOG2D_INUMTYPE
+	priv::MecCircle c{ P[0].getX(), P[0].getY(), 0 };
+	for( size_t i=1; i<P.size(); i++ )
 	{
-		set( pts[0], pts[1], pts[2] );
-		return;
+		if( c.contains( P[i] ) )
+			continue;
+		c = priv::MecCircle{ P[i].getX(), P[i].getY(), 0 };   // then P[i] is on the circle
+		for( size_t j=0; j<i; j++ )
+		{
+			if( c.contains( P[j] ) )
+				continue;
+			c = priv::getMec( P[i], P[j] );                   // then P[j] is on the circle too
+			for( size_t k=0; k<j; k++ )
+				if( !c.contains( P[k] ) )
+					c = priv::getMec( P[i], P[j], P[k] );
+		}
 	}
-
-	std::vector<Point2d_<HOMOG2D_INUMTYPE>> P_copy( std::begin(pts), std::end(pts) );
-//	std::random_shuffle( P_copy.begin(), P_copy.end() ); // ? check: what happens if removed?
-	std::vector<Point2d_<HOMOG2D_INUMTYPE>> R;
-
-	h2d::thr::doNotCheckRadius() = true;
-	auto cir = p_WelzlHelper( P_copy, R, P_copy.size() );
-	set( cir.center(), cir.radius() );
-	h2d::thr::doNotCheckRadius() = false;
+	set( Point2d_<HOMOG2D_INUMTYPE>( c._x, c._y ), c._rad );
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From b624aa897e1a28e2b0f922e063615df84743516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:38 +0000
Subject: [PATCH 25/74] fix: setting the radius of a circle accepted null and
 negative values

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1c306c6..a532a56 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3313,7 +3313,7 @@ Use of Sfinae so it can be selected only for arithmetic types
 	>
 	void set( T rad )
 	{
-		_radius = rad;
+		set( _center, rad );
 	}
 
 /// Set circle from center point and radius
-- 
2.43.0


From d5cda7bd620eab5f9eef7e934d17a1125c9d2aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:38 +0000
Subject: [PATCH 26/74] fix: segments tangential to two circles were NaN if one
 circle is inside the other one

---
 homog2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index a532a56..6eafe69 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10702,6 +10702,10 @@ getTanSegs( const Circle_<FPT1>& c1, const Circle_<FPT2>& c2 )
 		std::swap( cA, cB );
 
 	auto h = dist( cA.center(), cB.center() );
+#ifndef HOMOG2D_NOCHECKS
+	if( h - ( cA.radius() - cB.radius() ) < thr::nullDistance() )
+		HOMOG2D_THROW_ERROR_1( "no tangential segments, a circle is inside the other one" );
+#endif
 
 	auto theta = homog2d_asin( ( cA.radius() - cB.radius() ) / h ) ;
 	auto hcost = h * homog2d_cos(theta);
-- 
2.43.0


From 57facc96faddee98958831738098762f76326565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 27/74] fix: common bounding box with an empty polyline
 depended on the order of the arguments

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6eafe69..b27bdff 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10335,7 +10335,7 @@ getBB( const T1& elem1, const T2& elem2 )
 
 	bool isPoly_2 = false;
 	if( elem2.type() == Type::OPolyline || elem2.type() == Type::CPolyline )
-		isPoly_1 = true;
+		isPoly_2 = true;
 
 	auto siz_1 = elem1.size();
 	auto siz_2 = elem2.size();
@@ -10347,7 +10347,7 @@ getBB( const T1& elem1, const T2& elem2 )
 	FRect_<typename T1::FType> out;
 // we need to do that in two steps: first, copy return value into `out`, then return
 // because the underlying floating point might not be the same for the two arguments.
-	if( isPoly_2 && siz_1==0 )
+	if( isPoly_1 && siz_1==0 )
 	{
 		auto pp = ppair::getPointPair( elem2 );
 		if( shareCommonCoord(pp) )
@@ -10357,7 +10357,7 @@ getBB( const T1& elem1, const T2& elem2 )
 		else
 			return FRect_<typename T1::FType>( pp );
 	}
-	if( isPoly_1 && siz_2==0 )
+	if( isPoly_2 && siz_2==0 )
 	{
 		auto pp = ppair::getPointPair( elem1 );
 		if( shareCommonCoord(pp) )
-- 
2.43.0


From 62d17cbac8f6fd70c34ccdc5a200484b3f59ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 28/74] fix: bounding box of a set of variants was wrong if the
 set holds a line or an empty polyline

---
 homog2d.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b27bdff..e82b765 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10171,20 +10171,21 @@ getBB_CommonType( const std::vector<CommonType_<FPT>>& v_var )
 
 	std::vector<Point2d_<FPT>> vpts;
 	vpts.reserve( v_var.size()*2 );
-	PointPair_<FPT> ppair;
 	for( const auto& elem: v_var )
 	{
 		try
 		{
-			ppair = std::visit( fct::PtPairFunct{}, elem );
+			PointPair_<FPT> ppair = std::visit( fct::PtPairFunct{}, elem );
+			vpts.push_back( ppair.first );
+			vpts.push_back( ppair.second );
 		}
 		catch( const std::exception& err )
 		{
 			HOMOG2D_LOG_WARNING( "unable to compute point pair\n -msg=" << err.what() );
 		}
-		vpts.push_back( ppair.first );
-		vpts.push_back( ppair.second );
 	}
+	if( vpts.empty() )
+		HOMOG2D_THROW_ERROR_1( "unable, no element in container on which a bounding box can be computed" );
 	return FRect_<FPT>( getBB_Points( vpts ) );
 }
 
-- 
2.43.0


From 02d55c4fa21ad3517d00a3b72c6ae2fadadcbac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 29/74] fix: bounding box of a set of oriented segments always
 threw

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index e82b765..cc569b1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2110,6 +2110,7 @@ template <typename V, size_t n> struct IsArray<std::array<V, n>> : std::true_typ
 /// Traits class, used for getBB() set of functions
 template<class>   struct IsSegment              : std::false_type {};
 template<class T> struct IsSegment<Segment_<T>> : std::true_type  {};
+template<class T> struct IsSegment<OSegment_<T>>: std::true_type  {};
 template<class>   struct IsPoint                : std::false_type {};
 template<class T> struct IsPoint<Point2d_<T>>   : std::true_type  {};
 
-- 
2.43.0


From f40f9a8f76d5ea12be9766994295f5a63db5f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 30/74] fix: bounding box of a std::list or std::array of
 variants did not build

---
 homog2d.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index cc569b1..053fed1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10160,14 +10160,13 @@ namespace priv {
 /**
 \note Here, we DO NOT preallocate the vector, because if the container holds lines, then no point pair will be added for these elements.
 If we would have preallocate with 2 x size of input vector, then some default-constructed points could sneak in, and introduce an error.
-
-\todo 20240513: At present, this is only implemented for std::vector. Let it handle std::list and std::array.
 */
-template<typename FPT>
+template<typename T>
 auto
-getBB_CommonType( const std::vector<CommonType_<FPT>>& v_var )
+getBB_CommonType( const T& v_var )
 {
 	HOMOG2D_START;
+	using FPT = typename std::variant_alternative_t<0,typename T::value_type>::FType;
 	HOMOG2D_DEBUG_ASSERT( v_var.size(), "cannot compute bounding box of empty set of variant" );
 
 	std::vector<Point2d_<FPT>> vpts;
-- 
2.43.0


From f0816c4045a78b710f45a88a2c6fa44b6e8a8b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:54 +0000
Subject: [PATCH 31/74] fix: getExtremePoint() member function of polylines did
 not build

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 053fed1..4f443d5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7050,7 +7050,7 @@ template<typename PLT,typename FPT>
 Point2d_<FPT>
 PolylineBase<PLT,FPT>::getExtremePoint( CardDir dir ) const
 {
-	return getExtremePoint( dir, *this );
+	return h2d::getExtremePoint( dir, *this );
 }
 
 /// Return Bottom-most point of Polyline
-- 
2.43.0


From 9491f4cf30b9e149ccc93e72281877aa8a05543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 32/74] fix: nearest/farthest point search could return a point
 identical to the query point, and did not build with a list

---
 homog2d.hpp | 83 ++++++++++++-----------------------------------------
 1 file changed, 18 insertions(+), 65 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4f443d5..ae187b9 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10989,46 +10989,31 @@ findPoint(
 		HOMOG2D_THROW_ERROR_1( "container holds " << cont.size() \
 			<< " points, minimum is 2" );
 
-	decltype( priv::sqDist( qpt, qpt ) ) resDist;
-	size_t startIdx = 1;
-	size_t resIdx = 0;
+	decltype( priv::sqDist( qpt, *std::begin(cont) ) ) resDist = 0;
+	size_t resIdx = cont.size();  // this value means: no point found yet
 
-// if point is the first one of the container, then
-// initialize with the second one
-	if( cont[0] == qpt )
+	size_t i = 0;
+	for( const auto& pt: cont )
 	{
-		startIdx++;
-		resIdx++;
-		resDist = priv::sqDist( qpt, cont[1] );
-	}
-	else // initialize with first point
-	{
-		resDist = priv::sqDist( qpt, cont[0] );
-	}
-
-	for( size_t i=startIdx; i<cont.size(); i++ )
-	{
-		if( qpt != cont[i] )
+		if( qpt != pt )
 		{
-			auto currentDist = priv::sqDist( qpt, cont[i] );
+			auto currentDist = priv::sqDist( qpt, pt );
+			bool isBetter = ( resIdx == cont.size() );
 			if constexpr( std::is_same_v<S_WHAT, F_MIN> )
-			{
-				if( currentDist < resDist )
-				{
-					resIdx  = i;
-					resDist = currentDist;
-				}
-			}
+				isBetter = isBetter || currentDist < resDist;
 			else
+				isBetter = isBetter || currentDist > resDist;
+			if( isBetter )
 			{
-				if( currentDist > resDist )
-				{
-					resIdx  = i;
-					resDist = currentDist;
-				}
+				resIdx  = i;
+				resDist = currentDist;
 			}
 		}
+		i++;
 	}
+	if( resIdx == cont.size() )
+		HOMOG2D_THROW_ERROR_1( "container holds no point different from query point" );
+
 	return resIdx;
 }
 
@@ -11063,40 +11048,8 @@ template<typename FPT, typename T>
 auto
 findNearestFarthestPoint( const Point2d_<FPT>& pt, const T& cont )
 {
-	if( cont.size() < 2 )
-		HOMOG2D_THROW_ERROR_1( "container holds " << cont.size() \
-			<< " points, minimum is 2" );
-
-	auto maxDist = priv::sqDist( pt, cont[0] );
-	auto minDist = maxDist;
-	size_t idxMin = 0;
-	size_t idxMax = 0;
-	size_t startIdx = 1;
-	if( pt == cont[0] )
-	{
-		idxMin++;
-		idxMax++;
-		startIdx++;
-		maxDist = priv::sqDist( pt, cont[1] );
-		minDist = maxDist;
-	}
-	for( size_t i=startIdx; i<cont.size(); i++ )
-	{
-		if( pt != cont[i] )
-		{
-			auto currentDist = priv::sqDist( pt, cont[i] );
-			if( currentDist > maxDist )
-			{
-				idxMax  = i;
-				maxDist = currentDist;
-			}
-			if( currentDist < minDist )
-			{
-				idxMin  = i;
-				minDist = currentDist;
-			}
-		}
-	}
+	auto idxMin = findNearestPoint(  pt, cont );
+	auto idxMax = findFarthestPoint( pt, cont );
 	return std::make_pair(idxMin, idxMax);
 }
 
-- 
2.43.0


From 2da7344c25212d46373304f42c710ceec99521ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 33/74] fix: getPtsInside() did not build with a list

---
 homog2d.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ae187b9..667a1f3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11073,7 +11073,6 @@ getPtsInside(
 	static_assert( !trait::IsArray<CONT>::value, "Cannot use std::array as container" );
 
 	CONT out;
-	out.reserve( input_set.size() );
 
 	for( auto pt: input_set )
 		if( pt.isInside( prim ) )
-- 
2.43.0


From 6cf45d1437a55b6ad4c19ee2e2c3bd1b1f051a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 34/74] fix: comparing an ellipse modified it (axes swapped,
 wrong angle), and could throw

---
 homog2d.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 667a1f3..4859e56 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2359,27 +2359,32 @@ public:
 	friend std::ostream&
 	operator << ( std::ostream& f, const Ellipse_<T>& ell );
 
-/// Comparison operator. Does normalization if required
+/// Comparison operator. The conic is defined up to a scale factor, so we
+/// compare the coefficients relatively to the largest one (and don't modify the objects)
 	bool operator == ( const Ellipse_& h ) const
 	{
-		auto& data = detail::Matrix_<FPT>::_mdata;
+		const auto& data = detail::Matrix_<FPT>::_mdata;
 
-		if( !detail::Matrix_<FPT>::isNormalized() )
-			detail::Matrix_<FPT>::p_normalizeMat(2,2);
-		if( !h.isNormalized() )
-			h.p_normalizeMat(2,2);
+		int r = 0;
+		int c = 0;
+		for( int i=0; i<3; i++ )
+			for( int j=0; j<3; j++ )
+				if( homog2d_abs( data[i][j] ) > homog2d_abs( data[r][c] ) )
+				{
+					r = i;
+					c = j;
+				}
 
+		HOMOG2D_INUMTYPE k1 = data[r][c];
+		HOMOG2D_INUMTYPE k2 = h.value(r,c);
 		for( int i=0; i<3; i++ )
 			for( int j=0; j<3; j++ )
-				if( std::fabs(
-					static_cast<HOMOG2D_INUMTYPE>( data[i][j] ) - h.value(i,j) )
-					>= thr::nullDeter()
-				)
+				if( !( homog2d_abs( data[i][j] / k1 - h.value(i,j) / k2 ) < thr::nullDeter() ) )
 					return false;
 		return true;
 	}
 
-/// Comparison operator. Does normalization if required
+/// Comparison operator
 	bool operator != ( const Ellipse_& e ) const
 	{
 		return !(*this == e);
-- 
2.43.0


From ef2fe7fc63c7e96f00b53a99b477daf8a5ddadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 35/74] fix: ellipse parameters were truncated to double when
 the internal numerical type is larger

---
 homog2d.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4859e56..9d58e3f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2408,18 +2408,18 @@ is indeed a valid ellipse
 	detail::EllParams<T> p_computeParams() const;
 
 /// Called by all the constructors, fills the matrix.
-	void p_init( double x0, double y0, double a, double b, double theta=0. )
+	void p_init( HOMOG2D_INUMTYPE x0, HOMOG2D_INUMTYPE y0, HOMOG2D_INUMTYPE a, HOMOG2D_INUMTYPE b, HOMOG2D_INUMTYPE theta=0. )
 	{
 		auto& data = detail::Matrix_<FPT>::_mdata;
-		HOMOG2D_INUMTYPE sin1 = std::sin(theta);
-		HOMOG2D_INUMTYPE cos1 = std::cos(theta);
+		HOMOG2D_INUMTYPE sin1 = homog2d_sin(theta);
+		HOMOG2D_INUMTYPE cos1 = homog2d_cos(theta);
 		HOMOG2D_INUMTYPE sin2 = sin1 * sin1;
 		HOMOG2D_INUMTYPE cos2 = cos1 * cos1;
 		HOMOG2D_INUMTYPE a2   = a*a;
 		HOMOG2D_INUMTYPE b2   = b*b;
 
 		HOMOG2D_INUMTYPE A = a2*sin2 + b2*cos2;
-		HOMOG2D_INUMTYPE B = (HOMOG2D_INUMTYPE)2.*(b2-a2) * std::sin(theta) * std::cos(theta);
+		HOMOG2D_INUMTYPE B = (HOMOG2D_INUMTYPE)2.*(b2-a2) * sin1 * cos1;
 		HOMOG2D_INUMTYPE C = a2 * cos2 + b2 * sin2;
 		HOMOG2D_INUMTYPE D = (HOMOG2D_INUMTYPE)(-2.)*A * x0 -    B * y0;
 		HOMOG2D_INUMTYPE E =   - B * x0 - (HOMOG2D_INUMTYPE)2.*C * y0;
-- 
2.43.0


From a491eef8f42f2cfc07690b78e2167040d6d35451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 36/74] fix: ellipse parameters could not be computed, and
 isCircle() was wrong, depending on the size of the ellipse

---
 homog2d.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9d58e3f..6cff9bc 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8385,6 +8385,18 @@ Ellipse_<FPT>::p_computeParams() const
 	HOMOG2D_INUMTYPE D = 2. * m[0][2];
 	HOMOG2D_INUMTYPE E = 2. * m[1][2];
 
+// the conic is defined up to a scale factor, so make this independent of the size of the ellipse
+	auto scale = A + C;
+	if( scale != 0. )
+	{
+		A /= scale;
+		B /= scale;
+		C /= scale;
+		D /= scale;
+		E /= scale;
+		F /= scale;
+	}
+
 	detail::EllParams<T> par;  // theta already set to zero
 
 	auto denom = B*B - (HOMOG2D_INUMTYPE)4. * A * C;
@@ -8428,6 +8440,7 @@ Ellipse_<FPT>::p_computeParams() const
 /// Returns true if ellipse is a circle
 /**
 Using the matrix representation, if A = C and B = 0, then the ellipse is a circle
+(relatively to A+C, as the matrix is defined up to a scale factor)
 
 You can provide the 0 threshold as and argument
 */
@@ -8439,8 +8452,9 @@ Ellipse_<FPT>::isCircle( HOMOG2D_INUMTYPE thres ) const
 	HOMOG2D_INUMTYPE A  = m[0][0];
 	HOMOG2D_INUMTYPE C  = m[1][1];
 	HOMOG2D_INUMTYPE B2 = m[0][1];
-	if( homog2d_abs(A-C) < thres )
-		if( homog2d_abs(B2)*2. < thres )
+	auto scale = homog2d_abs(A+C);
+	if( homog2d_abs(A-C) < thres * scale )
+		if( homog2d_abs(B2)*2. < thres * scale )
 			return true;
 	return false;
 }
-- 
2.43.0


From 789d46f660e582cbe84c11697f2e7c3d72de26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:58 +0000
Subject: [PATCH 37/74] fix: getOBB() of an ellipse threw if using float type
 or far from the origin

---
 homog2d.hpp | 64 +++++++++--------------------------------------------
 1 file changed, 11 insertions(+), 53 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6cff9bc..d7feada 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8551,68 +8551,26 @@ Ellipse_<FPT>::getBB() const
 //------------------------------------------------------------------
 /// Returns oriented bounding box of ellipse as a closed Polyline
 /**
-Algorithm:
- - build line \c liH going through major axis, by using center point and
- point on semi-major axis, intersecting ellipse
- - get opposite point \c ptB, lying on line and at distance \c a
- - get the two parallel lines to \c liH, at a distance \c b
- - get the two orthogonal lines at \c ptA and \c ptB
-
-\todo 20240330: unclear, the text above does not match what is done below (or does it?).
-Clarify that, and build a gif showing how this is done.
+The four corners are computed from the center, by adding/substracting the half-axis vectors
 */
 template<typename FPT>
 CPolyline_<FPT>
 Ellipse_<FPT>::getOBB() const
 {
-// step 1: build ptA using angle
 	auto par = p_getParams<HOMOG2D_INUMTYPE>();
-	auto dy = par.sint * par.a;
-	auto dx = par.cost * par.a;
-	Point2d_<FPT> ptA(
-		par.x0 + dx,
-		par.y0 + dy
-	);
-	auto pt0 = Point2d_<HOMOG2D_INUMTYPE>( par.x0, par.y0 );
 
-// step 2: build main-axis line, going through center and ptA
-	auto li_H = ptA * pt0;
-
-// step 3: get ptB, using line and distance
-	auto ppts = li_H.getPoints( pt0, par.a );
-	auto ptB = ppts.first;
-	if( ptB == ptA )
-		ptB = ppts.second;
-
-	auto para = getParallelLines( li_H, par.b );
-	auto li_V1 = li_H.getOrthogLine( ptA );
-	auto li_V2 = li_H.getOrthogLine( ptB );
+// major axis vector
+	auto ax = par.cost * par.a;
+	auto ay = par.sint * par.a;
+// minor axis vector
+	auto bx = -par.sint * par.b;
+	auto by =  par.cost * par.b;
 
 	CPolyline_<FPT> out;
-#ifndef	HOMOG2D_DEBUGMODE
-	out.p_addPoint( para.first  * li_V1 );
-	out.p_addPoint( para.second * li_V1 );
-	out.p_addPoint( para.second * li_V2 );
-	out.p_addPoint( para.first  * li_V2 );
-#else
-	auto p1 = para.first  * li_V1;
-	auto p2 = para.second * li_V1;
-	auto p3 = para.second * li_V2;
-	auto p4 = para.first  * li_V2;
-	HOMOG2D_DEBUG_ASSERT(
-		( p2!=p1 && p3!=p2 && p4!=p3 ),
-		"p1=" << p1 << " p2=" << p2 << " p3=" << p3 << " p4=" << p4
-		<< "\n para.1=" << para.first
-		<< "\n li_V1=" << li_V1
-		<< "\n ptA=" << ptA
-		<< "\n ptB=" << ptB
-		<< "\n " << ppts
-	);
-	out.p_addPoint( p1 );
-	out.p_addPoint( p2 );
-	out.p_addPoint( p3 );
-	out.p_addPoint( p4 );
-#endif
+	out.p_addPoint( Point2d_<FPT>( par.x0+ax+bx, par.y0+ay+by ) );
+	out.p_addPoint( Point2d_<FPT>( par.x0+ax-bx, par.y0+ay-by ) );
+	out.p_addPoint( Point2d_<FPT>( par.x0-ax-bx, par.y0-ay-by ) );
+	out.p_addPoint( Point2d_<FPT>( par.x0-ax+bx, par.y0-ay+by ) );
 	return out;
 }
 
-- 
2.43.0


From 3e4e2241bd43f08238f3589ea778f3c927c8517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 38/74] fix: angle of an ellipse was inaccurate when close to
 the horizontal (cancellation)

---
 homog2d.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d7feada..7ecd525 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8428,7 +8428,11 @@ Ellipse_<FPT>::p_computeParams() const
 	}
 	else
 	{
-		auto t = (C - A - sqr) / B;
+		HOMOG2D_INUMTYPE t = 0.;
+		if( C > A )                 // same value, but avoids the cancellation of C-A with the root
+			t = -B / ( C - A + sqr );
+		else
+			t = (C - A - sqr) / B;
 		par.theta = homog2d_atan( t );
 	}
 	par.sint = homog2d_sin( par.theta );
-- 
2.43.0


From 04c9ee9c99f7a09a4605c746244d0bbb711dc83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:25 +0000
Subject: [PATCH 39/74] fix: isParallelTo() did not build with oriented
 segments, nor with segments of different numerical types

---
 homog2d.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 7ecd525..1a02581 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4196,8 +4196,8 @@ public:
 	template<typename FPT2>
 	bool isParallelTo( const Line2d_<FPT2>& ) const;
 
-	template<typename T>
-	bool isParallelTo( const Segment_<T>& seg ) const
+	template<typename SV,typename T>
+	bool isParallelTo( const base::SegVec<SV,T>& seg ) const
 	{
 		return isParallelTo( seg.getLine() );
 	}
@@ -5235,14 +5235,16 @@ public:
 	HOMOG2D_INUMTYPE
 	distTo( const Point2d_<FPT2>&, int* segDistCase=0 ) const;
 
-	template<typename T>
-	constexpr bool
-	isParallelTo( const T& other ) const
+	template<typename SV2,typename FPT2>
+	bool
+	isParallelTo( const SegVec<SV2,FPT2>& other ) const
+	{
+		return getLine().isParallelTo( other );
+	}
+	template<typename FPT2>
+	bool
+	isParallelTo( const Line2d_<FPT2>& other ) const
 	{
-		static_assert(
-			std::is_same<T,SegVec<SV,FPT>>::value ||
-			std::is_same<T,Line2d_<FPT>>::value,
-			"type needs to be a segment, a vector, or a line" );
 		return getLine().isParallelTo( other );
 	}
 
-- 
2.43.0


From 8ee32ee33eecfe232529175157683aec4addbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:53 +0000
Subject: [PATCH 40/74] fix: conversion of intersection results to another
 numerical type did not build, or threw if no intersection

---
 homog2d.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1a02581..d2c8d90 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2529,7 +2529,8 @@ class Intersect<Inters_1,FPT>: public IntersectCommon
 		Intersect( const Intersect<Inters_1,FPT2>& other )
 			: IntersectCommon( other )
 		{
-			_ptIntersect   = other._ptIntersect;
+			if( other() )
+				_ptIntersect = other.get();
 		}
 
 	private:
@@ -2556,9 +2557,12 @@ class Intersect<Inters_2,FPT>: public IntersectCommon
 		Intersect( const Intersect<Inters_2,FPT2>& other )
 			: IntersectCommon( other )
 		{
-			auto ppts = other.get();
-			_ptIntersect_1 = ppts.first;
-			_ptIntersect_2 = ppts.second;
+			if( other() )
+			{
+				auto ppts = other.get();
+				_ptIntersect_1 = ppts.first;
+				_ptIntersect_2 = ppts.second;
+			}
 		}
 		size_t size() const { return _doesIntersect?2:0; }
 
-- 
2.43.0


From 7eebe9b20b9733a939f0b8ad4bcfa81e0a5a56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:16 +0000
Subject: [PATCH 41/74] fix: areas, perimeters and angles were computed with a
 value of PI limited to the precision of a double

---
 homog2d.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d2c8d90..67f5717 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -74,6 +74,7 @@ See https://github.com/skramm/homog2d
 	#define homog2d_asin ttmath::ASin
 	#define homog2d_atan ttmath::ATan
 	#define homog2d_sqrt ttmath::Sqrt
+	#define homog2d_pi   static_cast<HOMOG2D_INUMTYPE>(M_PI)
 #else
 	#define homog2d_abs  std::abs
 	#define homog2d_sin  std::sin
@@ -82,6 +83,8 @@ See https://github.com/skramm/homog2d
 	#define homog2d_asin std::asin
 	#define homog2d_atan std::atan
 	#define homog2d_sqrt std::sqrt
+// M_PI only has the precision of a double
+	#define homog2d_pi   static_cast<HOMOG2D_INUMTYPE>(3.14159265358979323846264338327950288L)
 #endif
 
 #ifdef HOMOG2D_USE_OPENCV
@@ -2341,7 +2344,7 @@ public:
 	HOMOG2D_INUMTYPE area() const
 	{
 		auto par = p_getParams<HOMOG2D_INUMTYPE>();
-		return M_PI * par.a * par.b;
+		return homog2d_pi * par.a * par.b;
 	}
 // Circumference
 	HOMOG2D_INUMTYPE length() const;
@@ -3279,13 +3282,13 @@ We need Sfinae because there is another 3-args constructor (circle from 3 points
 /// Area of circle
 	HOMOG2D_INUMTYPE area() const
 	{
-		return static_cast<HOMOG2D_INUMTYPE>(_radius) * _radius * M_PI;
+		return static_cast<HOMOG2D_INUMTYPE>(_radius) * _radius * homog2d_pi;
 	}
 
 /// Perimeter of circle
 	HOMOG2D_INUMTYPE length() const
 	{
-		return static_cast<HOMOG2D_INUMTYPE>(_radius) * M_PI * 2.0;
+		return static_cast<HOMOG2D_INUMTYPE>(_radius) * homog2d_pi * 2.0;
 	}
 
 /// Returns Bounding Box of circle
@@ -6766,7 +6769,7 @@ PolylineBase<PLT,FPT>::set(
 	size_t n(ni);
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> v_pts(n);
 	auto it = std::begin( v_pts );
-	auto angle0 = (HOMOG2D_INUMTYPE)2. * M_PI / n;
+	auto angle0 = (HOMOG2D_INUMTYPE)2. * homog2d_pi / n;
 
 	Point2d_<HOMOG2D_INUMTYPE> pt0( rad, 0. ); // initial point
 	HOMOG2D_INUMTYPE radius = 0.;
@@ -7281,8 +7284,8 @@ PolylineBase<PLT,FPT>::p_minimizePL( PolylineBase<PLT,FPT>& pl, size_t istart, s
 		HOMOG2D_INUMTYPE a2 = std::atan2( vx2, vy2 );
 
 		auto diff = homog2d_abs(a1-a2);
-		if( diff > static_cast<HOMOG2D_INUMTYPE>(M_PI) )    // values close to -PI and +PI hold the same direction
-			diff = 2*static_cast<HOMOG2D_INUMTYPE>(M_PI) - diff;
+		if( diff > homog2d_pi )    // values close to -PI and +PI hold the same direction
+			diff = 2*homog2d_pi - diff;
 		if( diff < thr::nullAngleValue() )
 			ptset.push_back( i );
 	}
@@ -8430,7 +8433,7 @@ Ellipse_<FPT>::p_computeParams() const
 	if( homog2d_abs(B) < thr::nullDenom() )
 	{
 		if( A > C )
-			par.theta = M_PI / 2.;
+			par.theta = homog2d_pi / 2.;
 	}
 	else
 	{
@@ -8514,7 +8517,7 @@ Ellipse_<FPT>::length() const
 	auto ab_diff = par.a - par.b;
 	auto h = ab_diff * ab_diff / (ab_sum * ab_sum);
 	auto denom = (HOMOG2D_INUMTYPE)10. + homog2d_sqrt(4. - 3. * h);
-	return (par.a + par.b) * M_PI * ( 1. + 3. * h / denom );
+	return (par.a + par.b) * homog2d_pi * ( 1. + 3. * h / denom );
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 70c946487876dd0c7c64765044512e0bcc739db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:44 +0000
Subject: [PATCH 42/74] fix: line/segment intersection could be missed near an
 end of the segment when using float storage

---
 homog2d.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 67f5717..83a7e3c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8124,16 +8124,15 @@ SegVec<SV,FPT>::intersects( const Line2d_<FPT2>& li1 ) const
 	if( li1.isParallelTo( li2 ) ) // if parallel, no intersection
 		return out;
 
-	out._ptIntersect = li1 * li2;   // intersection point
+	auto pi = li2 * li1;   // intersection point, holds the internal numerical type (li2 does)
 
-	const auto& pi  = out._ptIntersect;
 	const auto& pt1 = getPts().first;
 	const auto& pt2 = getPts().second;
 
 	auto d1 = pt1.distTo( pi );
 	auto d2 = pt2.distTo( pi );
 	if( homog2d_abs(d1+d2-length()) < thr::nullDistance() )
- 		out._doesIntersect = true;
+		out.set( pi );
 
 	return out;
 }
-- 
2.43.0


From 89db509cccd82a10c8cab47fe65ff8b5e538a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:05 +0000
Subject: [PATCH 43/74] fix: areCollinear() used the storage type, and circle
 from 3 points of different numerical types did not build

---
 homog2d.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 83a7e3c..4d7af6e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3648,10 +3648,13 @@ operator * ( const Point2d_<FPT>& lhs, const Point2d_<FPT2>& rhs )
 \todo at present, defined by the distance between third point and line.
 Need to change that, and replace by computation of the angle between the two lines
 */
-template<typename FPT>
+template<typename FPT1,typename FPT2,typename FPT3,typename INUM=HOMOG2D_INUMTYPE>
 bool
-areCollinear( const Point2d_<FPT>& pt1, const Point2d_<FPT>& pt2, const Point2d_<FPT>& pt3 )
+areCollinear( const Point2d_<FPT1>& p1, const Point2d_<FPT2>& p2, const Point2d_<FPT3>& p3 )
 {
+	Point2d_<INUM> pt1( p1 );
+	Point2d_<INUM> pt2( p2 );
+	Point2d_<INUM> pt3( p3 );
 	if( pt1 == pt2 || pt2 == pt3 || pt1 == pt3 )
 		return true;
 
@@ -5582,7 +5585,8 @@ Circle_<FPT>::set(
 	if( areCollinear( pt1, pt2, pt3 ) )
 		HOMOG2D_THROW_ERROR_1( "Unable, points are colinear" );
 #endif
-	auto pts = priv::getLargestDistancePoints( pt1, pt2, pt3 );
+	using PT = Point2d_<HOMOG2D_INUMTYPE>;
+	auto pts = priv::getLargestDistancePoints( PT(pt1), PT(pt2), PT(pt3) );
 
 	auto seg1 = Segment_<HOMOG2D_INUMTYPE>( pts[0], pts[1] );
 	auto seg2 = Segment_<HOMOG2D_INUMTYPE>( pts[0], pts[2] );
-- 
2.43.0


From e7fad627de30d5bcdcf390280c2461b7b51c2fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:48 +0000
Subject: [PATCH 44/74] fix: homographies could not be converted to another
 numerical type

---
 homog2d.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4d7af6e..52b145f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1797,6 +1797,14 @@ Thus some assert can get triggered elsewhere.
 		, _hmt          (  nullptr )
 	{}
 
+/// Conversion from a homography holding another numerical type
+	template<typename FPT2>
+	Hmatrix_( const Hmatrix_<M,FPT2>& other )
+		: detail::Matrix_<FPT>( other )
+		, _hasChanged   ( true )
+		, _hmt          (  nullptr )
+	{}
+
 #ifdef HOMOG2D_USE_OPENCV
 /// Constructor used to initialise with a cv::Mat, call the assignment operator
 	Hmatrix_( const cv::Mat& mat )
-- 
2.43.0


From 01226b671eb9de728ab73f81ee188596efe4c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:19 +0000
Subject: [PATCH 45/74] fix: fct::TransformFunct kept a reference on its
 homography, dangling when built from a temporary

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 52b145f..b172c1b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1060,7 +1060,7 @@ public:
 	}
 
 private:
-	const Homogr_<FPT>& _h;
+	const Homogr_<FPT> _h; ///< held by value, so the functor can be built from a temporary
 };
 
 //------------------------------------------------------------------
-- 
2.43.0


From 3f12e874d9e0b6ea2407df1388b8279bec9cf809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:08 +0000
Subject: [PATCH 46/74] fix: streaming an rtp::Root that is not based on double
 read it as another type

---
 homog2d.hpp | 77 ++++++++++++++++-------------------------------------
 1 file changed, 23 insertions(+), 54 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b172c1b..dd95f95 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12072,6 +12072,20 @@ SegVec<SV,FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp ) const
 //------------------------------------------------------------------
 #ifdef HOMOG2D_ENABLE_PRTP
 namespace rtp {
+/// Helper function for Root stream operator: prints the object as the one of the types \c T... that it really is
+/// (same primitive, with different underlying numerical types)
+template<typename... T>
+void
+printRoot( std::ostream& f, const Root& p )
+{
+	auto print = [&f]( const auto* ptr )
+	{
+		if( ptr )
+			f << *ptr;
+	};
+	( print( dynamic_cast<const T*>( &p ) ), ... );
+}
+
 /// Stream operator for \c Root type
 /** \todo replace this by a call to a virtual function `print()`
 (that needs to be defined in all the child classes as:
@@ -12089,60 +12103,15 @@ operator << ( std::ostream& f, const Root& p )
 	f << "type="<< getString( p.type() ) << std::endl;
 	switch( p.type() )
 	{
-		case Type::Circle:
-		{
-			const Circle_<double>* p2 = static_cast<const Circle_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Ellipse:
-		{
-			const Ellipse_<double>* p2 = static_cast<const Ellipse_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::FRect:
-		{
-			const FRect_<double>* p2 = static_cast<const FRect_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Line2d:
-		{
-			const Line2d_<double>* p2 = static_cast<const Line2d_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Point2d:
-		{
-			const Point2d_<double>* p2 = static_cast<const Point2d_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Segment:
-		{
-			const Segment_<double>* p2 = static_cast<const Segment_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::OSegment:
-		{
-			const OSegment_<double>* p2 = static_cast<const OSegment_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::OPolyline:
-		{
-			const OPolyline_<double>* p2 = static_cast<const OPolyline_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::CPolyline:
-		{
-			const CPolyline_<double>* p2 = static_cast<const CPolyline_<double>*>( &p );
-			f << *p2;
-		}
-		break;
+		case Type::Circle: printRoot<Circle_<float>,Circle_<double>,Circle_<long double>>( f, p ); break;
+		case Type::Ellipse: printRoot<Ellipse_<float>,Ellipse_<double>,Ellipse_<long double>>( f, p ); break;
+		case Type::FRect: printRoot<FRect_<float>,FRect_<double>,FRect_<long double>>( f, p ); break;
+		case Type::Line2d: printRoot<Line2d_<float>,Line2d_<double>,Line2d_<long double>>( f, p ); break;
+		case Type::Point2d: printRoot<Point2d_<float>,Point2d_<double>,Point2d_<long double>>( f, p ); break;
+		case Type::Segment: printRoot<Segment_<float>,Segment_<double>,Segment_<long double>>( f, p ); break;
+		case Type::OSegment: printRoot<OSegment_<float>,OSegment_<double>,OSegment_<long double>>( f, p ); break;
+		case Type::OPolyline: printRoot<OPolyline_<float>,OPolyline_<double>,OPolyline_<long double>>( f, p ); break;
+		case Type::CPolyline: printRoot<CPolyline_<float>,CPolyline_<double>,CPolyline_<long double>>( f, p ); break;
 		default: assert(0);
 	}
 	return f;
-- 
2.43.0


From 445903165d6a2cd667f1f6147369300a15da6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:07 +0000
Subject: [PATCH 47/74] fix: text drawn on a SVG image was not escaped

---
 homog2d.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index dd95f95..eb0412c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11891,6 +11891,25 @@ operator << ( std::ostream& f, const Image<SvgImage>& im )
 }
 } // namespace img
 
+namespace priv {
+/// Returns the string with the characters that have a special meaning in XML replaced by the corresponding entity
+inline
+std::string
+escapeXml( const std::string& str )
+{
+	std::string out;
+	for( auto c: str )
+		switch( c )
+		{
+			case '<': out += "&lt;";  break;
+			case '>': out += "&gt;";  break;
+			case '&': out += "&amp;"; break;
+			default:  out += c;
+		}
+	return out;
+}
+} // namespace priv
+
 /// Draw text on Svg image
 /// \todo 20230118: find a way to add a default parameter for dp (not allowed on explicit instanciation)
 template <>
@@ -11905,7 +11924,7 @@ img::Image<img::SvgImage>::drawText( std::string str, Point2d_<float> pt, img::D
 			<< std::setw(2) << (int)dp.color().r
 			<< std::setw(2) << (int)dp.color().g
 			<< std::setw(2) << (int)dp.color().b
-		<< std::dec << "\">" << str << "</text>\n";
+		<< std::dec << "\">" << priv::escapeXml( str ) << "</text>\n";
 }
 
 #ifdef HOMOG2D_USE_OPENCV
-- 
2.43.0


From 27a822e1d439e4aa8c19c8ec534ca14e1594533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:28 +0000
Subject: [PATCH 48/74] fix: the library did not build with HOMOG2D_NOWARNINGS

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index eb0412c..b7e8299 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -156,7 +156,7 @@ See https://github.com/skramm/homog2d
 	if( err::printWarnings() == true ) \
 		std::cerr << "homog2d warning (" << ++err::warningCount() << "), l. " << __LINE__ << ": " << a << "\n";
 #else
-#define HOMOG2D_LOG_WARNING
+#define HOMOG2D_LOG_WARNING( a )
 #endif
 
 /*
-- 
2.43.0


From e0be9a0fe9137c370a27d7db4bee9cfbdc994a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:15 +0000
Subject: [PATCH 49/74] fix: SVG import did not read the numbers of a path or
 points list as SVG writes them

---
 homog2d.hpp | 88 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 31 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b7e8299..661ac81 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12361,35 +12361,17 @@ getEllipseRotateAttr( const char* rot_str )
 }
 
 //------------------------------------------------------------------
-/// Svg import: Basic parsing of points that are in the format "10,20 30,40 50,60"
-/// \todo 20240326: this is used to import SVG polygon type. Maybe this can be replaced by
-/// the "path" import code?
 inline
-std::vector<Point2d>
-parsePoints( const char* pts )
+bool isDigit( char c )
 {
-	std::vector<Point2d> out;
-	std::string s(pts);
-//	std::cout << "processing " << s << '\n';
-//	trimString( s );
-	auto v1 = tokenize( s, ' ' );
-	for( const auto& pt: v1 )
-	{
-		auto v2 = tokenize( pt, ',' );
-		if( v2.size() != 2 )
-			throw "h2d:img::svg: invalid point format in importing svg element: " + s;
-		auto x = std::stod( v2[0] );
-		auto y = std::stod( v2[1] );
-		out.emplace_back( Point2d(x,y) );
-	}
-	return out;
+	return ( (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' );
 }
 
-
+/// Values are separated by any mix of white space characters and commas
 inline
-bool isDigit( char c )
+bool isSeparator( char c )
 {
-	return ( (c >= '0' && c <= '9') || c == '.' || c == '-' );
+	return c == ' ' || c == ',' || c == '\t' || c == '\n' || c == '\r' || c == '\f';
 }
 
 inline
@@ -12400,16 +12382,20 @@ bool svgPathCommandIsAllowed(char c)
 	return false;
 }
 
-/// Get next element in svg path string.
+/// Get next element in svg path string (or points list).
+/**
+A number is: an optional sign, digits with at most one dot, and an optional exponent
+(so "10-20" holds two numbers, and "0.5.5" too).
+*/
 inline
 std::string
 getNextElem( const std::string& str, std::string::const_iterator& it )
 {
 	std::string out;
-	while( *it == ' ' || *it == ',' ) // skip spaces and commas
+	while( it != str.cend() && isSeparator(*it) )
 		it++;
 
-	if( it >= str.cend() )
+	if( it == str.cend() )
 		return out;         // return empty string
 
 	if( !isDigit(*it) )        // alpha character
@@ -12419,17 +12405,55 @@ getNextElem( const std::string& str, std::string::const_iterator& it )
 	}
 	else
 	{
-		while( isDigit(*it) && it < str.cend() )
+		auto isNum  = [&](std::string::const_iterator p){ return p != str.cend() && *p >= '0' && *p <= '9'; };
+		auto isSign = [&](std::string::const_iterator p){ return p != str.cend() && ( *p == '-' || *p == '+' ); };
+
+		if( isSign(it) )
+			out.push_back( *it++ );
+		bool hasDot = false;
+		while( isNum(it) || ( !hasDot && it != str.cend() && *it == '.' ) )
 		{
-			out.push_back( *it );
-			it++;
+			hasDot = hasDot || *it == '.';
+			out.push_back( *it++ );
+		}
+		if( it != str.cend() && ( *it == 'e' || *it == 'E' ) )
+		{
+			auto next = std::next(it);
+			if( isNum(next) || ( isSign(next) && isNum(std::next(next)) ) )
+			{
+				out.push_back( *it++ );
+				out.push_back( *it++ );
+				while( isNum(it) )
+					out.push_back( *it++ );
+			}
 		}
-//		std::cout << "getNextElem() DIGITS:-" << out << "- #=" << out.size() << '\n';
-//		return out;
 	}
 	return out;
 }
 
+/// Svg import: parsing of points lists ("10,20 30,40 50,60"), used to import SVG polygon and polyline types
+inline
+std::vector<Point2d>
+parsePoints( const char* pts )
+{
+	std::vector<double> values;
+	std::string s(pts);
+	auto it = s.cbegin();
+	for( auto e = getNextElem( s, it ); !e.empty(); e = getNextElem( s, it ) )
+	{
+		if( !isDigit(e[0]) )
+			HOMOG2D_THROW_ERROR_1( "invalid point format in importing svg element: " << s );
+		values.push_back( std::stod(e) );
+	}
+	if( values.size() % 2 )
+		HOMOG2D_THROW_ERROR_1( "odd number of values in importing svg element: " << s );
+
+	std::vector<Point2d> out;
+	for( size_t i=0; i<values.size(); i+=2 )
+		out.emplace_back( values[i], values[i+1] );
+	return out;
+}
+
 /// Returns nb of expected values for a given SVG path command.
 /// Ref: https://www.w3.org/TR/SVG2/paths.html
 inline
@@ -12659,6 +12683,8 @@ parsePath( const char* s )
 	{
 		auto e = getNextElem( str, it );
 //		HOMOG2D_LOG( "parsing element -" << e << "- #=" << e.size() );
+		if( e.empty() ) // only separators were left
+			break;
 
 		if( e.size() == 1 && !isDigit(e[0]) ) // we have a command !
 		{
-- 
2.43.0


From e53a8488cdc2c0af021efe178440b124a745a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:55 +0000
Subject: [PATCH 50/74] fix: SVG import of degenerate paths, points lists and
 documents was undefined behaviour

---
 homog2d.hpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 661ac81..bceff07 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12611,6 +12611,8 @@ std::vector<Point2d_<FPT>>
 purgeSetDupes( const std::vector<Point2d_<FPT>>& pts )
 {
 	std::vector<Point2d_<FPT>> out;
+	if( pts.empty() )
+		return out;
 	out.reserve( pts.size() );
 	for( auto it=pts.begin(); it!=std::prev(pts.end()); it++ )
 	{
@@ -12706,6 +12708,8 @@ parsePath( const char* s )
 		else // not a command, but a value
 		{
 //			HOMOG2D_LOG( "process value, values size=" << values.size() );
+			if( mode._nbValues == 0 )
+				HOMOG2D_THROW_ERROR_1( "SVG path: command -" << mode._command << "- has no value" );
 			if( values.size() == (size_t)mode._nbValues ) // already got enough values
 				values.storeValues( vout[idx], mode );
 			values.addValue( e );
@@ -12812,17 +12816,23 @@ getAttribString( const char* attribName, const tinyxml2::XMLElement& e )
 	return pts;
 }
 
+/// If first point equal to last point, remove last point
+inline
+void
+removeClosingPoint( std::vector<Point2d>& vec_pts )
+{
+	if( vec_pts.size() > 1 && vec_pts.front() == vec_pts.back() )
+		vec_pts.pop_back();
+}
+
 /// Helper function called by Visitor::VisitExit() to process Polyline/Polygons
 inline
 std::vector<Point2d>
 importSvgPoints( const tinyxml2::XMLElement& e )
 {
 	auto pts_str = svgp::getAttribString( "points", e );
-	auto vec_pts = svgp::parsePoints( pts_str );
-
-	if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
-		vec_pts.pop_back();                  //  point, remove last point
-
+	auto vec_pts = svgp::purgeSetDupes( svgp::parsePoints( pts_str ) );
+	removeClosingPoint( vec_pts );
 	return vec_pts;
 }
 
@@ -12880,14 +12890,16 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 			case T_polygon:
 			{
 				auto vpts = svgp::importSvgPoints( e );
-				_vecVar.emplace_back( CPolylineD(vpts) );
+				if( vpts.size() > 1 )       // nothing to import with less than 2 points
+					_vecVar.emplace_back( CPolylineD(vpts) );
 			}
 			break;
 
 			case T_polyline:
 			{
 				auto vpts = svgp::importSvgPoints( e );
-				_vecVar.emplace_back( OPolylineD(vpts) );
+				if( vpts.size() > 1 )
+					_vecVar.emplace_back( OPolylineD(vpts) );
 			}
 			break;
 
@@ -12901,8 +12913,9 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 					for( auto vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
 //					for( const auto& vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
 					{
-						if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
-							vec_pts.pop_back();                  //  point, remove last point
+						svgp::removeClosingPoint( vec_pts );
+						if( vec_pts.size() < 2 ) // nothing to import
+							continue;
 
 						if( parse_res.second == true )
 							_vecVar.emplace_back( CPolylineD(vec_pts) );
@@ -12952,6 +12965,8 @@ void
 printFileAttrib( const tinyxml2::XMLDocument& doc )
 {
 	const tinyxml2::XMLElement* root = doc.RootElement();
+	if( !root )
+		HOMOG2D_THROW_ERROR_1( "SVG file has no root element" );
 	const tinyxml2::XMLAttribute* pAttrib = root->FirstAttribute();
 	size_t i=0;
 	while( pAttrib )
@@ -12967,6 +12982,8 @@ auto
 getImgSize( const tinyxml2::XMLDocument& doc )
 {
 	const tinyxml2::XMLElement* root = doc.RootElement();
+	if( !root )
+		HOMOG2D_THROW_ERROR_1( "SVG file has no root element" );
 	const tinyxml2::XMLAttribute* pAttrib = root->FirstAttribute();
 	double w = -1., h = -1.;
 	while( pAttrib )
-- 
2.43.0


From 8adf9e83fc8a95d3136cdba197aa8db43da3f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:42 +0000
Subject: [PATCH 51/74] fix: SVG import mixed up the sub-paths of a path

---
 homog2d.hpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index bceff07..4c98c66 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12664,11 +12664,12 @@ Input string example:
 \verbatim
 m 261.68497,138.79393 2.57,3.15 -0.72,1.27 2.18,1.94 -0.7,4.93 1.88,0.9
 \endverbatim
-The return value holds as 'second' a bool value, will be true if closed polyline
+The return value holds as 'second' a bool value, will be true if closed polyline (if several, then this is
+about the last one, \c vclosed can be used to get the answer for all of them)
 */
 inline
 auto
-parsePath( const char* s )
+parsePath( const char* s, std::vector<bool>* vclosed=nullptr )
 {
 	SvgPathCommand mode;
 	std::vector<std::vector<Point2d>> vout(1);
@@ -12679,8 +12680,8 @@ parsePath( const char* s )
 	if( str.size() == 0 )
 		HOMOG2D_THROW_ERROR_1( "SVG path string is empty" );
 
+	std::vector<bool> closed(1,false);
 	auto it = str.cbegin();
-	Point2d previousPt;
 	do
 	{
 		auto e = getNextElem( str, it );
@@ -12693,17 +12694,26 @@ parsePath( const char* s )
 			if( values.size() != 0 )              // if we have some values stored,
 				values.storeValues( vout[idx], mode );  //  first process them and add new point
 
+			auto prevCommand = mode._command;
 			mode = getCommand( e[0] );
 			HOMOG2D_LOG( "command=" << e[0] );
 			if( !svgPathCommandIsAllowed(mode._command) )
 				HOMOG2D_THROW_ERROR_1( "SVG path command -" << mode._command << "- not handled" );
 
+			if( mode._command == 'Z' && !vout[idx].empty() )
+			{
+				closed[idx] = true;
+				values._previousPt = vout[idx].front(); // the current point is back at the start of the polyline
+			}
 			if( mode.isNewPolyline() && !vout[idx].empty() )
 			{
 				vout.push_back( std::vector<Point2d>() );
+				closed.push_back( false );
 				idx++;
 				HOMOG2D_LOG( "NEW vector idx=" << idx );
 			}
+			if( prevCommand == 'Z' && !mode.isNewPolyline() ) // then, the new polyline starts at the same point
+				vout[idx].push_back( values._previousPt );
 		}
 		else // not a command, but a value
 		{
@@ -12725,7 +12735,12 @@ parsePath( const char* s )
 		if( v.size() )
 			v = purgeSetDupes( v );
 	if( vout.back().empty() )
+	{
 		vout.pop_back();
+		closed.pop_back();
+	}
+	if( vclosed )
+		*vclosed = closed;
 
 	return std::make_pair(
 		vout,
@@ -12908,16 +12923,17 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				auto pts_str = svgp::getAttribString( "d", e );
 				try
 				{
-					auto parse_res = svgp::parsePath( pts_str );
+					std::vector<bool> closed;
+					auto parse_res = svgp::parsePath( pts_str, &closed );
 					const auto& vec_vec_pts = parse_res.first;  //
-					for( auto vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
-//					for( const auto& vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
+					for( size_t i=0; i<vec_vec_pts.size(); i++ )
 					{
+						auto vec_pts = vec_vec_pts[i]; // we need a copy so we may remove last point if equal to first
 						svgp::removeClosingPoint( vec_pts );
 						if( vec_pts.size() < 2 ) // nothing to import
 							continue;
 
-						if( parse_res.second == true )
+						if( closed[i] )
 							_vecVar.emplace_back( CPolylineD(vec_pts) );
 						else
 							_vecVar.emplace_back( OPolylineD(vec_pts) );
-- 
2.43.0


From f448b2810918a5a508f7ee160c5d83b92cf3c411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:22 +0000
Subject: [PATCH 52/74] fix: SVG import refused ellipses without rotation

---
 homog2d.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4c98c66..53ab338 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12954,8 +12954,13 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				auto y  = svgp::getAttribValue( e, "cy", n );
 				auto rx = svgp::getAttribValue( e, "rx", n );
 				auto ry = svgp::getAttribValue( e, "ry", n );
-				auto rot = svgp::getEllipseRotateAttr( svgp::getAttribString( "transform", e ) );
 				auto ell = EllipseD( x, y, rx, ry );
+				if( !e.Attribute( "transform" ) ) // no rotation
+				{
+					_vecVar.push_back( ell );
+					break;
+				}
+				auto rot = svgp::getEllipseRotateAttr( svgp::getAttribString( "transform", e ) );
 
 				auto H = Homogr().addTranslation(-x,-y).addRotation(rot.second).addTranslation(x,y);
 				_vecVar.push_back( H * ell );
-- 
2.43.0


From f9721e39ee602284de333e9de59be9cef5aca713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:03 +0000
Subject: [PATCH 53/74] fix: SVG import of an ellipse taller than wide swapped
 its axes

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 53ab338..830e7fe 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12954,7 +12954,7 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				auto y  = svgp::getAttribValue( e, "cy", n );
 				auto rx = svgp::getAttribValue( e, "rx", n );
 				auto ry = svgp::getAttribValue( e, "ry", n );
-				auto ell = EllipseD( x, y, rx, ry );
+				auto ell = ( ry > rx ? EllipseD( x, y, ry, rx, M_PI/2. ) : EllipseD( x, y, rx, ry ) ); // major axis first
 				if( !e.Attribute( "transform" ) ) // no rotation
 				{
 					_vecVar.push_back( ell );
-- 
2.43.0


From e5c90f18e28600b46036981d1bf390b1d0275143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 54/74] fix: getCvPtd() and getCvPtf() truncated the
 coordinates to integers

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 830e7fe..511ab3e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4413,8 +4413,8 @@ public:
 	}
 
 	cv::Point2i getCvPti() const { return impl_getPt<cv::Point2i>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2d getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2f getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
 
 /// Constructor: build point or line from a single OpenCv point.
 	template<typename T>
-- 
2.43.0


From d42e1868867152becac797f111348512298934f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:26 +0000
Subject: [PATCH 55/74] fix: building a point or line from a vector of wrong
 size was an out-of-bounds access

---
 homog2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 511ab3e..6f9713b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3934,6 +3934,10 @@ This will call one of the two overloads of \c impl_init_1_Point(), depending on
 	>
 	LPBase( const T& arr )
 	{
+#ifndef HOMOG2D_NOCHECKS
+		if( arr.size() != 3 )
+			HOMOG2D_THROW_ERROR_1( "Invalid size for input: " << arr.size() );
+#endif
 		_v[0] = static_cast<FPT>(arr[0]);
 		_v[1] = static_cast<FPT>(arr[1]);
 		_v[2] = static_cast<FPT>(arr[2]);
-- 
2.43.0


From 7631abd0036e21f1e4e75d85cc28f5b27c08cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:13 +0000
Subject: [PATCH 56/74] fix: assigning an Opencv matrix to a homography kept
 its previous inverse

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6f9713b..5872666 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11557,6 +11557,8 @@ Hmatrix_<W,FPT>::operator = ( const cv::Mat& mat )
 			break;
 		default: assert(0);
 	}
+	detail::Matrix_<FPT>::_isNormalized = false;
+	_hasChanged = true;
 	return *this;
 }
 #endif // HOMOG2D_USE_OPENCV
-- 
2.43.0


From 9b2a07c02e2336ab299bfd1b1541ebf2705fd085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:57 +0000
Subject: [PATCH 57/74] fix: building a polyline from an empty boost polygon
 was undefined behaviour

---
 homog2d.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5872666..ce4f518 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6140,6 +6140,8 @@ this relates to the actual fact that last point is equal to first point.
 	)
 	{
 		const auto& outer = bgpol.outer();
+		if( outer.empty() )
+			return;
 		bool isClosed = false;
 		auto ptf = outer.front();
 		auto ptb = outer.back();
@@ -6156,14 +6158,16 @@ this should work !!! (but doesn't...)
 		if( isClosed && std::is_same_v<PLT,typ::IsOpen> ) // cannot build an open polyline from a closed one
 			HOMOG2D_THROW_ERROR_1( "unable to convert a closed boost::polygon into an OPolyline" );
 
-		_plinevec.reserve( outer.size() - isClosed );
+		std::vector<Point2d_<FPT>> vec;
+		vec.reserve( outer.size() - isClosed );
 		for( auto it=outer.begin(); it!=outer.end()-isClosed; it++ )
 		{
 			const auto& bgpt = *it;
-			_plinevec.emplace_back(
+			vec.emplace_back(
 				Point2d_<FPT>( boost::geometry::get<0>(bgpt), boost::geometry::get<1>(bgpt) )
 			);
 		}
+		set( vec );
 	}
 #endif
 
-- 
2.43.0


From 6b29d0f3ff13947c589afa5fca0c726f7b4f8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 58/74] fix: normalising a line left the sign of an almost null
 coefficient behind

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index ce4f518..b04eae1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8673,6 +8673,7 @@ LPBase<LP,FPT>::impl_normalize( const detail::BaseHelper<typename typ::IsLine>&
 	if( homog2d_abs(_v[0]) < thr::nullDenom() ) // then, change sign so that b>0
 		if( _v[1] < 0 )
 		{
+			const_cast<LPBase<LP,FPT>*>(this)->_v[0] = 0. - _v[0]; // almost null, but this is the same line
 			const_cast<LPBase<LP,FPT>*>(this)->_v[1] = - _v[1];
 			const_cast<LPBase<LP,FPT>*>(this)->_v[2] = - _v[2];
 		}
-- 
2.43.0


From 290c395747dc9ce0d0b38ebf24cbb436ec645cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:29 +0000
Subject: [PATCH 59/74] fix: FRect moveTo() did not build

---
 homog2d.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b04eae1..275ab75 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2860,18 +2860,17 @@ public:
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
 
-		auto s = size();
-		_ptR1.set(x,y);
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		moveTo( Point2d_<FPT>(x,y) );
 	}
 
 /// Move FRect to other location, given by \c pt
 	template<typename T1>
 	void moveTo( const Point2d_<T1>& pt )
 	{
-		auto s = size();
+		auto w = width();
+		auto h = height();
 		_ptR1 = pt;
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		_ptR2.set( _ptR1.getX() + w, _ptR1.getY() + h );
 	}
 
 	template<typename FPT2>
-- 
2.43.0


From 80db20d574020a887a1ecb349d17ed0eff4b6494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 60/74] fix: rotating a polyline around one of its own points
 used the point being moved

---
 homog2d.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 275ab75..98dd656 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7235,9 +7235,11 @@ template<typename FPT2>
 void
 PolylineBase<PLT,FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
+	const auto x = refpt.getX(); // the point may be one of ours
+	const auto y = refpt.getY();
+	translate( -x, -y );
 	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	translate( x, y );
 }
 
 //------------------------------------------------------------------
@@ -7645,9 +7647,11 @@ template<typename FPT2>
 void
 FRect_<FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
+	const auto x = refpt.getX(); // the point may be one of ours
+	const auto y = refpt.getY();
+	translate( -x, -y );
 	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	translate( x, y );
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 97e425f39e05bb293e0cc6fe72dfd86ae0f1bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:54 +0000
Subject: [PATCH 61/74] fix: getOrthogSegment() did not build for lines of
 another numerical type

---
 homog2d.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 98dd656..baf5943 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8823,20 +8823,13 @@ LPBase<LP,FPT>::getOrthogSegment( const Point2d_<FPT2>& pt ) const
 	static_assert( !std::is_same_v<LP,typ::IsPoint>, "Invalid call, cannot compute orthogonal segment between two points" );
 
 	Line2d_<HOMOG2D_INUMTYPE> src = *this;  // copy to highest precision
-	auto dist = src.distTo(pt);
 #ifndef HOMOG2D_NOCHECKS
+	auto dist = src.distTo(pt);
 	if( dist < thr::nullDistance() )   // sanity check
 		HOMOG2D_THROW_ERROR_1( "unable to compute segment, distance too small=" << dist );
 #endif
-	auto pair_lines = getParallelLines( dist );
-
-// determine on which of the two parallel lines does the point lie?
-	Line2d_<HOMOG2D_INUMTYPE>* pline = &pair_lines.first;
-	if( pt.distTo(pair_lines.second) < thr::nullDistance() )
-		pline = &pair_lines.second;
-
-	auto oline = pline->getOrthogLine( pt );
-	auto p2 = *this * oline;
+	auto oline = src.getParallelLine( pt ).getOrthogLine( pt );
+	auto p2 = src * oline;
 	return OSegment_<FPT>( p2, pt );
 }
 
-- 
2.43.0


From ee57b199ad354acbc5d582f35b065136d1daae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:40 +0000
Subject: [PATCH 62/74] fix: each translation unit had its own thresholds

---
 homog2d.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index baf5943..40a4f01 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1230,36 +1230,36 @@ void printVectorPairs( const std::vector<std::pair<T,T>>& v )
 /// Holds threshold values and api to access these
 namespace thr {
 
-static HOMOG2D_INUMTYPE& nullDistance()
+inline HOMOG2D_INUMTYPE& nullDistance()
 {
 	static HOMOG2D_INUMTYPE s_zeroDistance = HOMOG2D_THR_ZERO_DIST;
 	return s_zeroDistance;
 }
-static HOMOG2D_INUMTYPE& nullOrthogDistance()
+inline HOMOG2D_INUMTYPE& nullOrthogDistance()
 {
 	static HOMOG2D_INUMTYPE s_zeroOrthoDistance = HOMOG2D_THR_ZERO_ORTHO_DIST;
 	return s_zeroOrthoDistance;
 }
-static HOMOG2D_INUMTYPE& nullAngleValue()
+inline HOMOG2D_INUMTYPE& nullAngleValue()
 {
 	static HOMOG2D_INUMTYPE s_zeroAngleValue = HOMOG2D_THR_ZERO_ANGLE;
 	return s_zeroAngleValue;
 }
 
-static HOMOG2D_INUMTYPE& nullDenom()
+inline HOMOG2D_INUMTYPE& nullDenom()
 {
 	static HOMOG2D_INUMTYPE _zeroDenom = HOMOG2D_THR_ZERO_DENOM;
 	return _zeroDenom;
 }
 
-static HOMOG2D_INUMTYPE& nullDeter()
+inline HOMOG2D_INUMTYPE& nullDeter()
 {
 	static HOMOG2D_INUMTYPE _zeroDeter = HOMOG2D_THR_ZERO_DETER;
 	return _zeroDeter;
 }
 
 /// This one is used for the Welzl minimum enclosing circle
-static bool& doNotCheckRadius()
+inline bool& doNotCheckRadius()
 {
 	static bool _doNotCheckRadius = false;
 	return _doNotCheckRadius;
-- 
2.43.0


From 83172cbb521e9d59730ab4ce2248f2243ba497e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:11 +0000
Subject: [PATCH 63/74] fix: error and warning counters were data races

---
 homog2d.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 40a4f01..ecc5c06 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -38,6 +38,7 @@ See https://github.com/skramm/homog2d
 #include <map>
 #include <stack>
 #include <random>
+#include <atomic>
 #include <iomanip>
 #include <cassert>
 #include <sstream>
@@ -252,16 +253,16 @@ this will enable the counting of errors
 
 \todo 20250123: for some reason, the error count is always 42! Need to investigate this.
 */
-inline size_t& errorCount()
+inline std::atomic<size_t>& errorCount()
 {
-	static size_t c_err;
+	static std::atomic<size_t> c_err{0};
 	return c_err;
 }
 
 /// Used in macro HOMOG2D_LOG_WARNING
-inline size_t& warningCount()
+inline std::atomic<size_t>& warningCount()
 {
-	static size_t c_war;
+	static std::atomic<size_t> c_war{0};
 	return c_war;
 }
 
-- 
2.43.0


From 3d079cfc68c3f3e3040d7f4d3a58d97571f8613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:01 +0000
Subject: [PATCH 64/74] fix: SVG import rewrote a static table at each command

---
 homog2d.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ecc5c06..da98e4a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12465,20 +12465,21 @@ parsePoints( const char* pts )
 /// Returns nb of expected values for a given SVG path command.
 /// Ref: https://www.w3.org/TR/SVG2/paths.html
 inline
-std::map<char,int>&
+const std::map<char,int>&
 numberValues()
 {
-	static std::map<char,int> nbval;
-	nbval['M'] = 2; // M-m
-	nbval['L'] = 2; // L-l
-	nbval['H'] = 1; // H-h
-	nbval['V'] = 1; // V-v
-	nbval['C'] = 6; // C-c !NOT HANDLED!
-	nbval['S'] = 4; // S-s !NOT HANDLED!
-	nbval['Q'] = 4; // Q-q !NOT HANDLED!
-	nbval['T'] = 2; // T t !NOT HANDLED!
-	nbval['A'] = 7; // A-a !NOT HANDLED!
-	nbval['Z'] = 0; // Z-z
+	static const std::map<char,int> nbval = {
+		{ 'M', 2 }, // M-m
+		{ 'L', 2 }, // L-l
+		{ 'H', 1 }, // H-h
+		{ 'V', 1 }, // V-v
+		{ 'C', 6 }, // C-c !NOT HANDLED!
+		{ 'S', 4 }, // S-s !NOT HANDLED!
+		{ 'Q', 4 }, // Q-q !NOT HANDLED!
+		{ 'T', 2 }, // T t !NOT HANDLED!
+		{ 'A', 7 }, // A-a !NOT HANDLED!
+		{ 'Z', 0 }, // Z-z
+	};
 	return nbval;
 }
 
-- 
2.43.0


From 34569fa25ec290afe792b6bffff0652e57eb4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:48 +0000
Subject: [PATCH 65/74] fix: messages on std::cerr changed its formatting state

---
 homog2d.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index da98e4a..f9883ba 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -155,7 +155,11 @@ See https://github.com/skramm/homog2d
 #ifndef HOMOG2D_NOWARNINGS
 #define HOMOG2D_LOG_WARNING( a ) \
 	if( err::printWarnings() == true ) \
-		std::cerr << "homog2d warning (" << ++err::warningCount() << "), l. " << __LINE__ << ": " << a << "\n";
+	{ \
+		std::ostringstream oss; \
+		oss << "homog2d warning (" << ++err::warningCount() << "), l. " << __LINE__ << ": " << a << "\n"; \
+		std::cerr << oss.str(); \
+	}
 #else
 #define HOMOG2D_LOG_WARNING( a )
 #endif
@@ -8740,11 +8744,8 @@ LPBase<LP,FPT>::getPoints( const Point2d_<FPT2>& pt, FPT3 dist ) const
 
 #ifndef HOMOG2D_NOCHECKS
 	if( this->distTo( pt ) > thr::nullDistance() )
-	{
-		std::cerr << "homog2d: distance=" << std::scientific << this->distTo( pt )
-			<< " > null distance (" << thr::nullDistance() << ")\n";
-		HOMOG2D_THROW_ERROR_2( "getPoints", "point is not on line" );
-	}
+		HOMOG2D_THROW_ERROR_2( "getPoints", "point is not on line, distance=" << std::scientific << this->distTo( pt )
+			<< " > null distance (" << thr::nullDistance() << ")" );
 #endif
 
 	return priv::getPoints_B2( pt, dist, *this );
@@ -8800,11 +8801,8 @@ LPBase<LP,FPT>::getRotatedLine( const Point2d_<FPT2>& pt, T theta ) const
 
 #ifndef HOMOG2D_NOCHECKS
 	if( this->distTo( pt ) > thr::nullDistance() )
-	{
-		std::cerr << "homog2d: distance=" << std::scientific << this->distTo( pt )
-			<< "> null distance (" << thr::nullDistance() << ")\n";
-		HOMOG2D_THROW_ERROR_2( "getLineAngle", "point is not on line" );
-	}
+		HOMOG2D_THROW_ERROR_2( "getLineAngle", "point is not on line, distance=" << std::scientific << this->distTo( pt )
+			<< " > null distance (" << thr::nullDistance() << ")" );
 #endif
 	Homogr_<HOMOG2D_INUMTYPE> H;
 	H.addTranslation( -pt.getX(), -pt.getY() ).addRotation(theta).addTranslation( pt.getX(), pt.getY() );
-- 
2.43.0


From 9c3bee9e824fb9d1b95cd6e2ca2d2386da05debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 66/74] fix: building a regular polygon of huge or tiny radius
 failed on an assertion

---
 homog2d.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f9883ba..c046ad1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6808,10 +6808,7 @@ PolylineBase<PLT,FPT>::set(
 		{
 			auto pt1 = Point2d_<HOMOG2D_INUMTYPE>( x * rad, y * rad );
 			Segment_<HOMOG2D_INUMTYPE> seg( pt0, pt1 );
-			Line2d_<HOMOG2D_INUMTYPE> li( seg.getCenter() );     // line passing through (0,0) and middle point of segment
-			auto inters_pt = seg.intersects( li ) ;              // intersection point
-			assert( inters_pt() );
-			radius = Point2d_<HOMOG2D_INUMTYPE>(0,0).distTo( inters_pt.get() );
+			radius = Point2d_<HOMOG2D_INUMTYPE>(0,0).distTo( seg.getCenter() );
 		}
 
 		*it = Point2d_<HOMOG2D_INUMTYPE>( x * rad, y * rad );
-- 
2.43.0


From 2ea9c12b7df81df71ede7cd41078b89765adfa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:44 +0000
Subject: [PATCH 67/74] fix: getExtended() of very long segments failed on an
 assertion

---
 homog2d.hpp | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index c046ad1..90c20fa 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5466,25 +5466,12 @@ template<typename SV, typename FPT>
 SegVec<SV,FPT>
 SegVec<SV,FPT>::getExtended() const
 {
-	Segment_<HOMOG2D_INUMTYPE> seg( _ptS1, _ptS2 ); // to get highest precision
-	auto li = seg.getLine();
-	auto rad1 = seg.length();
-	auto ppts = seg.getPts(); // ordered
-	auto c1 = Circle_<HOMOG2D_INUMTYPE>( ppts.first,  rad1 );
-	auto c2 = Circle_<HOMOG2D_INUMTYPE>( ppts.second, rad1 );
-
-	auto int1 = li.intersects( c1 );
-	auto int2 = li.intersects( c2 );
-	assert( int1() );
-	assert( int2() );
-	auto ppt1 = int1.get();
-	auto ppt2 = int2.get();
-
-	if constexpr( std::is_same_v<SV,typ::IsOSeg> ) // keep orientation
-		if( _ptS2 < _ptS1 )
-			return SegVec<SV,FPT>( ppt2.second, ppt1.first );
-
-	return SegVec<SV,FPT>( ppt1.first, ppt2.second );
+	const HOMOG2D_INUMTYPE x1 = _ptS1.getX(), y1 = _ptS1.getY(), x2 = _ptS2.getX(), y2 = _ptS2.getY(); // to get highest precision
+
+	return SegVec<SV,FPT>(
+		Point2d_<HOMOG2D_INUMTYPE>( 2.*x1 - x2, 2.*y1 - y2 ),
+		Point2d_<HOMOG2D_INUMTYPE>( 2.*x2 - x1, 2.*y2 - y1 )
+	);
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 00626194012c3cbf5b2e1de152ab4841c83bfd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:31 +0000
Subject: [PATCH 68/74] fix: buildFrom4Points() asserted on an unknown method
 instead of raising an error

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 90c20fa..d96b955 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4789,7 +4789,8 @@ Hmatrix_<M,FPT>::buildFrom4Points(
 		HOMOG2D_THROW_ERROR_1( "invalid vector size for source points, should be 4, value=" << vpt1.size() );
 	if( vpt2.size() != 4 )
 		HOMOG2D_THROW_ERROR_1( "invalid vector size for dest points, should be 4, value=" << vpt2.size() );
-	assert( method == 0 || method == 1 );
+	if( method != 0 && method != 1 )
+		HOMOG2D_THROW_ERROR_1( "invalid method, should be 0 or 1, value=" << method );
 
 	if( method == 0 )
 	{
-- 
2.43.0


From b8fda596ca59429f43a0513447bd12036600a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:01 +0000
Subject: [PATCH 69/74] fix: ClosestPoints holds the points found, not
 references on the polylines

---
 homog2d.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d96b955..6e0999c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10422,29 +10422,27 @@ private:
 	HOMOG2D_INUMTYPE _minDist;
 	Point2d_<HOMOG2D_INUMTYPE> _pt1;
 	Point2d_<HOMOG2D_INUMTYPE> _pt2;
-	const base::PolylineBase<PLT1,FPT1>& _poly1;
-	const base::PolylineBase<PLT2,FPT2>& _poly2;
 
+/// The points are held by value, so the result doesn't depend on the lifetime of the polylines
 	ClosestPoints( const base::PolylineBase<PLT1,FPT1>& poly1, const base::PolylineBase<PLT2,FPT2>& poly2 )
-		: _poly1(poly1), _poly2(poly2)
+		: _pt1(poly1.getPoint(0)), _pt2(poly2.getPoint(0))
 	{
 		_minDist = dist( poly1.getPoint(0), poly2.getPoint(0) );
 	}
-	void store( HOMOG2D_INUMTYPE d, size_t idx1, size_t idx2 )
+	void store( HOMOG2D_INUMTYPE d, size_t idx1, size_t idx2, const Point2d_<FPT1>& pt1, const Point2d_<FPT2>& pt2 )
 	{
 		_minDist = d;
 		_pt1_min = idx1;
 		_pt2_min = idx2;
+		_pt1 = pt1;
+		_pt2 = pt2;
 	}
 
 public:
 	PointPair_<HOMOG2D_INUMTYPE>
 	getPoints() const
 	{
-		return std::make_pair(
-			_poly1.getPoint(_pt1_min),
-			_poly2.getPoint(_pt2_min)
-		);
+		return std::make_pair( _pt1, _pt2 );
 	}
 	HOMOG2D_INUMTYPE getMinDist() const
 	{
@@ -10490,7 +10488,7 @@ getClosestPoints(
 			const auto& pt2 = poly2.getPoint(j);
 			auto currentDist = dist( pt1, pt2 );
 			if( currentDist < out._minDist )
-				out.store( currentDist, i, j );
+				out.store( currentDist, i, j, pt1, pt2 );
 		}
 	}
 	return out;
-- 
2.43.0


From c90124be10b61dc08affc8db514b8d983f591c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:48 +0000
Subject: [PATCH 70/74] fix: DrawParams::setFontSize() throws on invalid values

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6e0999c..4be0a22 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -635,7 +635,8 @@ public:
 /// Set font size for drawText()
 	DrawParams& setFontSize( int value /* pixels */ )
 	{
-		assert( value > 1 );
+		if( value < 2 )
+			HOMOG2D_THROW_ERROR_1( "invalid font size: " << value );
 		_dpValues._fontSize = value;
 		return *this;
 	}
-- 
2.43.0


From ee47d28fc498edaf71da747c430be92ade154e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:31 +0000
Subject: [PATCH 71/74] fix: drawing a line on a very small image

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4be0a22..cc56ca3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11567,8 +11567,8 @@ base::LPBase<LP,FPT>::impl_draw_LP(
 	const detail::BaseHelper<typename typ::IsLine>&
 ) const
 {
-	assert( im.rows() > 2 );
-	assert( im.cols() > 2 );
+	if( im.rows() < 2 || im.cols() < 2 ) // no area to draw in
+		return;
 
 	Point2d_<FPT> pt1; // 0,0
 	Point2d_<FPT> pt2( im.cols()-1, im.rows()-1 );
-- 
2.43.0


From 04fbf8b4431faa82eca01327cb6808c9df9e8550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:11 +0000
Subject: [PATCH 72/74] fix: img::Image<SvgImage>::clear( uint8_t )

---
 homog2d.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index cc56ca3..81aa937 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -870,6 +870,13 @@ Image<SvgImage>::clear( uint8_t, uint8_t, uint8_t )
 	_realImg._svgString.str("");
 	_realImg._svgString.clear();
 }
+template <>
+inline
+void
+Image<SvgImage>::clear( uint8_t col )
+{
+	clear( col, col, col );
+}
 
 #ifdef HOMOG2D_USE_OPENCV
 template <>
-- 
2.43.0


From 32bbba3f5ce57a9aae65e20732e43067f7bd8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:53 +0000
Subject: [PATCH 73/74] fix: size of an image built from an existing cv::Mat

---
 homog2d.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 81aa937..836cec9 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -731,7 +731,15 @@ private:
 public:
 	Image() = default;
 	Image( T& m ): _realImg(m)
-	{}
+	{
+#ifdef HOMOG2D_USE_OPENCV
+		if constexpr( std::is_same_v<T,cv::Mat> )
+		{
+			_width  = m.cols;
+			_height = m.rows;
+		}
+#endif
+	}
 /// Returns a reference on the underlying image
 	T& getReal()
 	{
-- 
2.43.0


From 913ddf4c28a6edf3bd463585a06d55499a6be4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:28 +0000
Subject: [PATCH 74/74] fix: center of rotation of an ellipse in SVG import

---
 homog2d.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 836cec9..0d6a568 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12968,7 +12968,10 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				}
 				auto rot = svgp::getEllipseRotateAttr( svgp::getAttribString( "transform", e ) );
 
-				auto H = Homogr().addTranslation(-x,-y).addRotation(rot.second).addTranslation(x,y);
+				auto rx0 = rot.first.getX(); // center of rotation
+				auto ry0 = rot.first.getY();
+
+				auto H = Homogr().addTranslation(-rx0,-ry0).addRotation(rot.second).addTranslation(rx0,ry0);
 				_vecVar.push_back( H * ell );
 			}
 			break;
-- 
2.43.0

