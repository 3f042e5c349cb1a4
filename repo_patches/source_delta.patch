From 82d95a64125ead9608ab6b6813c48159bbd0cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 01/56] fix: thresholds are shared by all translation units

The thr:: accessors were `static` functions: each translation unit had its own
set of thresholds, so changing one had no effect on code of another unit.
---
 homog2d.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 69d091c..efe379f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1226,36 +1226,36 @@ void printVectorPairs( const std::vector<std::pair<T,T>>& v )
 /// Holds threshold values and api to access these
 namespace thr {
 
-static HOMOG2D_INUMTYPE& nullDistance()
+inline HOMOG2D_INUMTYPE& nullDistance()
 {
 	static HOMOG2D_INUMTYPE s_zeroDistance = HOMOG2D_THR_ZERO_DIST;
 	return s_zeroDistance;
 }
-static HOMOG2D_INUMTYPE& nullOrthogDistance()
+inline HOMOG2D_INUMTYPE& nullOrthogDistance()
 {
 	static HOMOG2D_INUMTYPE s_zeroOrthoDistance = HOMOG2D_THR_ZERO_ORTHO_DIST;
 	return s_zeroOrthoDistance;
 }
-static HOMOG2D_INUMTYPE& nullAngleValue()
+inline HOMOG2D_INUMTYPE& nullAngleValue()
 {
 	static HOMOG2D_INUMTYPE s_zeroAngleValue = HOMOG2D_THR_ZERO_ANGLE;
 	return s_zeroAngleValue;
 }
 
-static HOMOG2D_INUMTYPE& nullDenom()
+inline HOMOG2D_INUMTYPE& nullDenom()
 {
 	static HOMOG2D_INUMTYPE _zeroDenom = HOMOG2D_THR_ZERO_DENOM;
 	return _zeroDenom;
 }
 
-static HOMOG2D_INUMTYPE& nullDeter()
+inline HOMOG2D_INUMTYPE& nullDeter()
 {
 	static HOMOG2D_INUMTYPE _zeroDeter = HOMOG2D_THR_ZERO_DETER;
 	return _zeroDeter;
 }
 
 /// This one is used for the Welzl minimum enclosing circle
-static bool& doNotCheckRadius()
+inline bool& doNotCheckRadius()
 {
 	static bool _doNotCheckRadius = false;
 	return _doNotCheckRadius;
@@ -5427,7 +5427,7 @@ SegVec<SV,FPT>::getPointAt( FPT2 dist ) const
 		return ppts.first;
 	else
 		return ppts.second;
-}
+}
 
 //------------------------------------------------------------------
 /// Returns two parallel segments to the current one in a pair
-- 
2.43.0


From 6d6517386b2556dc2808db5cc449ba88c222c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 02/56] fix: direct element access resets the 'normalized' flag
 of a matrix

---
 homog2d.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index efe379f..cd777d2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1492,7 +1492,7 @@ public:
 		_isNormalized = other._isNormalized;
 	}
 
-	matrix_t<FPT>&       getRaw()       { return _mdata; }
+	matrix_t<FPT>&       getRaw()       { _isNormalized = false; return _mdata; }
 	const matrix_t<FPT>& getRaw() const { return _mdata; }
 
 	template<typename T>
@@ -1502,6 +1502,7 @@ public:
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
 		_mdata[r][c] = v;
+		_isNormalized = false;
 	}
 
 	const FPT& value( size_t r, size_t c ) const
@@ -1516,6 +1517,7 @@ public:
 		#ifndef HOMOG2D_NOCHECKS
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
+		_isNormalized = false;
 		return _mdata[r][c];
 	}
 
@@ -1791,6 +1793,7 @@ Thus some assert can get triggered elsewhere.
 		, _hmt          (  nullptr )
 	{
 		detail::Matrix_<FPT>::getRaw() = other.getRaw();
+		detail::Matrix_<FPT>::_isNormalized = other._isNormalized;
 	}
 
 #ifdef HOMOG2D_USE_OPENCV
-- 
2.43.0


From c937871a0b61ab759809f00fecaa7dfcbb547db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 03/56] fix: homography assignment also copies the 'normalized'
 flag

---
 homog2d.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index cd777d2..cacae3e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1810,7 +1810,10 @@ Thus some assert can get triggered elsewhere.
 	Hmatrix_& operator = ( const Hmatrix_<M,FPT>& other )
 	{
 		if( this != &other )
+		{
 			detail::Matrix_<FPT>::getRaw() = other.getRaw();
+			detail::Matrix_<FPT>::_isNormalized = other._isNormalized;
+		}
 		_hasChanged = true;
 		return *this;
 	}
-- 
2.43.0


From 851aad4851223d15166f2417e1334c44190182b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 04/56] fix: every modification of a homography invalidates the
 cached H^-T

init(), set(), value(), getRaw(), transpose(), inverse() and assignment from
cv::Mat left the cached matrix used to transform lines untouched.
---
 homog2d.hpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index cacae3e..4181f55 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1860,8 +1860,40 @@ Thus some assert can get triggered elsewhere.
 	void init()
 	{
 		impl_mat_init0( detail::BaseHelper<M>() );
+		_hasChanged = true;
+	}
+
+/// \name Direct access to the elements, see detail::Matrix_
+///@{
+	detail::matrix_t<FPT>& getRaw()
+	{
+		_hasChanged = true;
+		return detail::Matrix_<FPT>::getRaw();
+	}
+	const detail::matrix_t<FPT>& getRaw() const { return detail::Matrix_<FPT>::getRaw(); }
+
+	template<typename T>
+	void set( size_t r, size_t c, T v )
+	{
+		_hasChanged = true;
+		detail::Matrix_<FPT>::set( r, c, v );
 	}
 
+	FPT& value( size_t r, size_t c )
+	{
+		_hasChanged = true;
+		return detail::Matrix_<FPT>::value( r, c );
+	}
+	const FPT& value( size_t r, size_t c ) const { return detail::Matrix_<FPT>::value( r, c ); }
+
+	Hmatrix_& transpose()
+	{
+		_hasChanged = true;
+		detail::Matrix_<FPT>::transpose();
+		return *this;
+	}
+///@}
+
 /// \name Adding/assigning a transformation
 ///@{
 
@@ -11702,6 +11734,8 @@ Hmatrix_<W,FPT>::operator = ( const cv::Mat& mat )
 			break;
 		default: assert(0);
 	}
+	detail::Matrix_<FPT>::_isNormalized = false;
+	_hasChanged = true;
 	return *this;
 }
 #endif // HOMOG2D_USE_OPENCV
-- 
2.43.0


From 339042a708e7df4f44b093093b61602cfa6999ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 05/56] fix: matrix normalization divides all elements by the
 same value

The divisor was read again from the matrix after it had been divided by itself.
---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4181f55..53e0363 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1583,9 +1583,10 @@ protected:
 	void p_divideBy( size_t r, size_t c ) const
 	{
 //		assert( std::fabs( _mdata[r][c] ) > 1000*std::numeric_limits<FPT>::epsilon() );
+		const FPT divisor = _mdata[r][c];
 		for( auto& li: _mdata )
 			for( auto& e: li )
-				e /= _mdata[r][c];
+				e /= divisor;
 	}
 
 	void p_fillZero()
-- 
2.43.0


From cf2399748e197fa5d84f96ac10db3f9971e569e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 06/56] fix: the parameters of an ellipse are not converted to
 double

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 53e0363..72e1aae 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2436,7 +2436,7 @@ is indeed a valid ellipse
 	detail::EllParams<T> p_computeParams() const;
 
 /// Called by all the constructors, fills the matrix.
-	void p_init( double x0, double y0, double a, double b, double theta=0. )
+	void p_init( HOMOG2D_INUMTYPE x0, HOMOG2D_INUMTYPE y0, HOMOG2D_INUMTYPE a, HOMOG2D_INUMTYPE b, HOMOG2D_INUMTYPE theta=0. )
 	{
 		auto& data = detail::Matrix_<FPT>::_mdata;
 		HOMOG2D_INUMTYPE sin1 = std::sin(theta);
-- 
2.43.0


From 65e19af4ac45804c6e83aa10fb145b069a1c6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 07/56] fix: conversion of intersection results between
 floating-point types

The conversion constructors either did not build (private member of the other
instantiation) or threw when there is no intersection.
---
 homog2d.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 72e1aae..bea3cc5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2557,7 +2557,8 @@ class Intersect<Inters_1,FPT>: public IntersectCommon
 		Intersect( const Intersect<Inters_1,FPT2>& other )
 			: IntersectCommon( other )
 		{
-			_ptIntersect   = other._ptIntersect;
+			if( other() )
+				_ptIntersect = other.get();
 		}
 
 	private:
@@ -2584,9 +2585,12 @@ class Intersect<Inters_2,FPT>: public IntersectCommon
 		Intersect( const Intersect<Inters_2,FPT2>& other )
 			: IntersectCommon( other )
 		{
-			auto ppts = other.get();
-			_ptIntersect_1 = ppts.first;
-			_ptIntersect_2 = ppts.second;
+			if( other() )
+			{
+				auto ppts = other.get();
+				_ptIntersect_1 = ppts.first;
+				_ptIntersect_2 = ppts.second;
+			}
 		}
 		size_t size() const { return _doesIntersect?2:0; }
 
-- 
2.43.0


From f16ed220e808b96925d0aa9fc7817f91f7cba89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 08/56] fix: FRect_::moveTo() builds, and keeps width and
 height

size() does not return a pair any more.
---
 homog2d.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index bea3cc5..dab8845 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2907,18 +2907,15 @@ public:
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
 
-		auto s = size();
-		_ptR1.set(x,y);
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		moveTo( Point2d_<FPT>(x,y) );
 	}
 
 /// Move FRect to other location, given by \c pt
 	template<typename T1>
 	void moveTo( const Point2d_<T1>& pt )
 	{
-		auto s = size();
-		_ptR1 = pt;
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		FRect_<FPT> out( pt, Point2d_<HOMOG2D_INUMTYPE>( pt.getX() + width(), pt.getY() + height() ) );
+		*this = out;
 	}
 
 	template<typename FPT2>
-- 
2.43.0


From 9c9f73d5d454f556d2f4ccbd1d75103fb73080a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 09/56] fix: a Segment built from an OSegment has its points
 sorted

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index dab8845..b0e940c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4982,7 +4982,7 @@ Please note that the source (points) floating-point type is lost
 			( std::is_same_v<SV,typ::IsOSeg> && std::is_same_v<SV2,typ::IsOSeg> ) ),
 			"Cannot build a OSegment from a Segment"
 		);
-		if constexpr( std::is_same_v<SV2,typ::IsSegment> )
+		if constexpr( std::is_same_v<SV,typ::IsSegment> )
 			priv::fix_order( _ptS1, _ptS2 );
 	}
 
-- 
2.43.0


From ce930d825bfca6103840614d0a804532c8d37fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 10/56] fix: unary minus on an OSegment does not modify its
 operand

---
 homog2d.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b0e940c..b74beff 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4992,11 +4992,12 @@ Please note that the source (points) floating-point type is lost
 ///@{
 
 /// Reverse oriented segment
-	SegVec<SV,FPT> operator - ()
+	SegVec<SV,FPT> operator - () const
 	{
 		static_assert( !std::is_same_v<SV,typ::IsSegment>, "cannot reverse non-oriented segment" );
-		std::swap( _ptS1, _ptS2 );
-		return *this;
+		SegVec<SV,FPT> out( *this );
+		std::swap( out._ptS1, out._ptS2 );
+		return out;
 	}
 
 /// Setter
-- 
2.43.0


From 99ee6f1a67cf58058c1409ec0cc8a92d81a06eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 11/56] fix: getCvPtd() and getCvPtf() return floating-point
 values

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b74beff..d563c4b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4476,8 +4476,8 @@ public:
 	}
 
 	cv::Point2i getCvPti() const { return impl_getPt<cv::Point2i>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2d getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2f getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
 
 /// Constructor: build point or line from a single OpenCv point.
 	template<typename T>
-- 
2.43.0


From c507fa8d328535690906847292ad141aa378c8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 12/56] fix: constructor of Point/Line from a vector checks its
 size

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index d563c4b..efba67e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3997,6 +3997,8 @@ This will call one of the two overloads of \c impl_init_1_Point(), depending on
 	>
 	LPBase( const T& arr )
 	{
+		if( arr.size() != 3 )
+			HOMOG2D_THROW_ERROR_1( "container must hold 3 values, size=" << arr.size() );
 		_v[0] = static_cast<FPT>(arr[0]);
 		_v[1] = static_cast<FPT>(arr[1]);
 		_v[2] = static_cast<FPT>(arr[2]);
-- 
2.43.0


From 8ab8309b484006aec3274a5040bb7e6b73ba8621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 13/56] fix: moving a Polyline invalidates the stored
 attributes

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index efba67e..fe0e4ba 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6459,6 +6459,7 @@ Also use the areCollinear() function
 	{
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
+		_attribs.setBad();
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
 	}
@@ -6490,6 +6491,7 @@ Also use the areCollinear() function
 			HOMOG2D_THROW_ERROR_1( "Invalid call, Polyline is empty" );
 		auto dx = new_org.getX() - getPoint(0).getX();
 		auto dy = new_org.getY() - getPoint(0).getY();
+		_attribs.setBad();
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
 	}
-- 
2.43.0


From 4db5d1fea7cb0fe0fc8e518748f8cc8df24a5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 14/56] fix: Polyline::getExtremePoint() builds

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index fe0e4ba..6ee0587 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7161,7 +7161,7 @@ template<typename PLT,typename FPT>
 Point2d_<FPT>
 PolylineBase<PLT,FPT>::getExtremePoint( CardDir dir ) const
 {
-	return getExtremePoint( dir, *this );
+	return h2d::getExtremePoint( dir, *this );
 }
 
 /// Return Bottom-most point of Polyline
-- 
2.43.0


From 2299cef8205aba70e68023d37459f0ca13a2b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 15/56] fix: ellipse whose major axis is vertical: angle is in
 radians

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6ee0587..43cc24e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8589,7 +8589,7 @@ Ellipse_<FPT>::p_computeParams() const
 	if( homog2d_abs(B) < thr::nullDenom() )
 	{
 		if( A > C )
-			par.theta = 90.;
+			par.theta = static_cast<HOMOG2D_INUMTYPE>(M_PI) / 2.;
 	}
 	else
 	{
-- 
2.43.0


From 0bcfc948f038df147e8ec9274644070b8914217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 16/56] fix: common bounding box of two elements when one is an
 empty polyline

The flag of the second element was never set, and the size of the wrong
element was tested.
---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 43cc24e..9eee797 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10493,7 +10493,7 @@ getBB( const T1& elem1, const T2& elem2 )
 
 	bool isPoly_2 = false;
 	if( elem2.type() == Type::OPolyline || elem2.type() == Type::CPolyline )
-		isPoly_1 = true;
+		isPoly_2 = true;
 
 	auto siz_1 = elem1.size();
 	auto siz_2 = elem2.size();
@@ -10505,7 +10505,7 @@ getBB( const T1& elem1, const T2& elem2 )
 	FRect_<typename T1::FType> out;
 // we need to do that in two steps: first, copy return value into `out`, then return
 // because the underlying floating point might not be the same for the two arguments.
-	if( isPoly_2 && siz_1==0 )
+	if( isPoly_1 && siz_1==0 )
 	{
 		auto pp = ppair::getPointPair( elem2 );
 		if( shareCommonCoord(pp) )
@@ -10515,7 +10515,7 @@ getBB( const T1& elem1, const T2& elem2 )
 		else
 			return FRect_<typename T1::FType>( pp );
 	}
-	if( isPoly_1 && siz_2==0 )
+	if( isPoly_2 && siz_2==0 )
 	{
 		auto pp = ppair::getPointPair( elem1 );
 		if( shareCommonCoord(pp) )
-- 
2.43.0


From 9b537787511c80e555e3e8d0d5961a014936b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 17/56] fix: bounding box of a set of variants ignores elements
 that have none

The previous pair of points, or a default one for the first element, was added
instead.
---
 homog2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9eee797..e27b6be 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10335,14 +10335,16 @@ getBB_CommonType( const std::vector<CommonType_<FPT>>& v_var )
 		try
 		{
 			ppair = std::visit( fct::PtPairFunct{}, elem );
+			vpts.push_back( ppair.first );
+			vpts.push_back( ppair.second );
 		}
 		catch( const std::exception& err )
 		{
 			HOMOG2D_LOG_WARNING( "unable to compute point pair\n -msg=" << err.what() );
 		}
-		vpts.push_back( ppair.first );
-		vpts.push_back( ppair.second );
 	}
+	if( vpts.empty() )
+		HOMOG2D_THROW_ERROR_1( "unable, no element has a bounding box" );
 	return FRect_<FPT>( getBB_Points( vpts ) );
 }
 
-- 
2.43.0


From 14957b4538376ce9d8963f1faa72793d5b393405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 18/56] fix: rotation around a point that belongs to the
 rotated object

The reference point was read again after the object it may belong to had been
translated.
---
 homog2d.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e27b6be..1d01c76 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7313,9 +7313,11 @@ template<typename FPT2>
 void
 PolylineBase<PLT,FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
+	const auto x = refpt.getX();
+	const auto y = refpt.getY();
+	translate( -x, -y );
 	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	translate( x, y );
 }
 
 //------------------------------------------------------------------
@@ -7671,9 +7673,11 @@ template<typename FPT2>
 void
 FRect_<FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
+	const auto x = refpt.getX();
+	const auto y = refpt.getY();
+	translate( -x, -y );
 	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	translate( x, y );
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 73284ea45f9f6f1ff4cbe459cbb9c728c224e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 19/56] fix: applying a homography to an OSegment returns an
 OSegment

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1d01c76..779191c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9748,13 +9748,13 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 
 /// Apply homography to a Segment
 template<typename SV,typename FPT1,typename FPT2>
-Segment_<FPT1>
+base::SegVec<SV,FPT1>
 operator * ( const Homogr_<FPT1>& h, const base::SegVec<SV,FPT2>& seg )
 {
 	const auto& pts = seg.getPts();
 	Point2d_<FPT1> pt1 = h * pts.first;
 	Point2d_<FPT1> pt2 = h * pts.second;
-	return base::SegVec<SV,FPT2>( pt1, pt2 );
+	return base::SegVec<SV,FPT1>( pt1, pt2 );
 }
 
 /// Apply homography to a Polyline
-- 
2.43.0


From eb63de941e2418faa7c1b18322ff7f539d60a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 20/56] fix: free function size() returns the same type as the
 member function

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 779191c..bff328b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1033,7 +1033,7 @@ struct AreaFunct
 struct SizeFunct
 {
 	template<typename T>
-	HOMOG2D_INUMTYPE operator ()(const T& a)
+	size_t operator ()(const T& a)
 	{
 		return a.size();
 	}
@@ -10302,7 +10302,7 @@ area( const T& elem )
 /// Returns size of element or variant (free function)
 /// \ingroup varff
 template<typename T>
-HOMOG2D_INUMTYPE
+size_t
 size( const T& elem )
 {
 #ifdef HOMOG2D_ENABLE_VRTP
-- 
2.43.0


From 0c2d4db6850c27444e883a73d0192f6dacd66c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 21/56] fix: getClosestPoints(): the returned object holds the
 points

It held references on the arguments, that could be gone or modified.
---
 homog2d.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index bff328b..5b246ec 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10595,16 +10595,16 @@ private:
 	HOMOG2D_INUMTYPE _minDist;
 	Point2d_<HOMOG2D_INUMTYPE> _pt1;
 	Point2d_<HOMOG2D_INUMTYPE> _pt2;
-	const base::PolylineBase<PLT1,FPT1>& _poly1;
-	const base::PolylineBase<PLT2,FPT2>& _poly2;
 
 	ClosestPoints( const base::PolylineBase<PLT1,FPT1>& poly1, const base::PolylineBase<PLT2,FPT2>& poly2 )
-		: _poly1(poly1), _poly2(poly2)
+		: _pt1( poly1.getPoint(0) ), _pt2( poly2.getPoint(0) )
 	{
 		_minDist = dist( poly1.getPoint(0), poly2.getPoint(0) );
 	}
-	void store( HOMOG2D_INUMTYPE d, size_t idx1, size_t idx2 )
+	void store( HOMOG2D_INUMTYPE d, size_t idx1, size_t idx2, const Point2d_<FPT1>& pt1, const Point2d_<FPT2>& pt2 )
 	{
+		_pt1 = pt1;
+		_pt2 = pt2;
 		_minDist = d;
 		_pt1_min = idx1;
 		_pt2_min = idx2;
@@ -10614,10 +10614,7 @@ public:
 	PointPair_<HOMOG2D_INUMTYPE>
 	getPoints() const
 	{
-		return std::make_pair(
-			_poly1.getPoint(_pt1_min),
-			_poly2.getPoint(_pt2_min)
-		);
+		return std::make_pair( _pt1, _pt2 );
 	}
 	HOMOG2D_INUMTYPE getMinDist() const
 	{
@@ -10663,7 +10660,7 @@ getClosestPoints(
 			const auto& pt2 = poly2.getPoint(j);
 			auto currentDist = dist( pt1, pt2 );
 			if( currentDist < out._minDist )
-				out.store( currentDist, i, j );
+				out.store( currentDist, i, j, pt1, pt2 );
 		}
 	}
 	return out;
-- 
2.43.0


From 621687db87b9f180da88abf881a38c931763e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 22/56] fix: getTanSegs() throws when a circle is inside the
 other one

---
 homog2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5b246ec..9426654 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10863,6 +10863,10 @@ getTanSegs( const Circle_<FPT1>& c1, const Circle_<FPT2>& c2 )
 		std::swap( cA, cB );
 
 	auto h = dist( cA.center(), cB.center() );
+#ifndef HOMOG2D_NOCHECKS
+	if( h < cA.radius() - cB.radius() )
+		HOMOG2D_THROW_ERROR_1( "no tangent segments, a circle is inside the other one" );
+#endif
 
 	auto theta = homog2d_asin( ( cA.radius() - cB.radius() ) / h ) ;
 	auto hcost = h * homog2d_cos(theta);
-- 
2.43.0


From e9e65ea98f67d9aeb31fc2f29c8492f4938b72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 23/56] fix: minimum enclosing circle: restore the global flag
 when an exception is thrown

---
 homog2d.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9426654..188aa10 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5798,10 +5798,14 @@ Circle_<FPT>::set( const T& pts )
 //	std::random_shuffle( P_copy.begin(), P_copy.end() ); // ? check: what happens if removed?
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> R;
 
-	h2d::thr::doNotCheckRadius() = true;
+	struct FlagGuard // restores the flag, whatever happens
+	{
+		bool previous = h2d::thr::doNotCheckRadius();
+		FlagGuard()  { h2d::thr::doNotCheckRadius() = true; }
+		~FlagGuard() { h2d::thr::doNotCheckRadius() = previous; }
+	} guard;
 	auto cir = p_WelzlHelper( P_copy, R, P_copy.size() );
 	set( cir.center(), cir.radius() );
-	h2d::thr::doNotCheckRadius() = false;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From cb33768f9313210926687aba91ae93c0d038ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 24/56] fix: minimum enclosing circle does not use (and
 disturb) the global std::rand() generator

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 188aa10..15f4d6c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5737,7 +5737,8 @@ Circle_<FPT>::p_WelzlHelper(
 		return p_min_circle_trivial( R );
 
 	// Pick a random point randomly
-	int idx = std::rand() % n;
+	std::minstd_rand generator( static_cast<std::minstd_rand::result_type>(n) );
+	size_t idx = generator() % n;
 	auto p = P[idx];
 
 	// Put the picked point at the end of P
-- 
2.43.0


From acc03bb05f69d73c801a2d12d5721237da1d802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 25/56] fix: circle from a std::list of points

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 15f4d6c..99025fa 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5785,13 +5785,14 @@ Circle_<FPT>::set( const T& pts )
 
 	if( pts.size() == 2 )
 	{
-		set( pts[0], pts[1] );
+		set( *std::begin(pts), *std::next( std::begin(pts) ) );
 		return;
 	}
 
 	if( pts.size() == 3 ) // todo: convert pts to HOMOG2D_INUMTYPE
 	{
-		set( pts[0], pts[1], pts[2] );
+		auto it = std::begin(pts);
+		set( *it, *std::next(it), *std::next(it,2) );
 		return;
 	}
 
-- 
2.43.0


From e33134f52b9923ab91e2b396193d409ce9ec9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 26/56] fix: Circle_::set( radius ) checks its argument, as the
 constructor does

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 99025fa..5f2b778 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3390,7 +3390,7 @@ Use of Sfinae so it can be selected only for arithmetic types
 	>
 	void set( T rad )
 	{
-		_radius = rad;
+		set( Point2d_<FPT>(_center), rad );
 	}
 
 /// Set circle from center point and radius
-- 
2.43.0


From 49ee5d1c906430ba3f8ab10bab096d19aae388ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 27/56] fix: sorting the intersection points does not modify
 the object

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5f2b778..4ce1174 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2652,8 +2652,9 @@ public:
 /// Returns the intersection points, sorted
 	std::vector<Point2d_<FPT>> get() const
 	{
-		std::sort( std::begin(_vecInters), std::end(_vecInters) );
-		return _vecInters;
+		auto out = _vecInters;
+		std::sort( std::begin(out), std::end(out) );
+		return out;
 	}
 	friend std::ostream&
 	operator << ( std::ostream& f, const IntersectM& i )
-- 
2.43.0


From 36049581c46dcc21ea26e85740d53aea4bd3af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 28/56] fix: missing include for std::minstd_rand

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4ce1174..d80c9c7 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -45,6 +45,7 @@ See https://github.com/skramm/homog2d
 #include <limits>
 #include <cstdint> // required for uint8_t
 #include <memory>  // required for std::unique_ptr
+#include <random>  // required for std::minstd_rand
 
 #ifdef HOMOG2D_USE_SVG_IMPORT
 	#define HOMOG2D_ENABLE_VRTP
-- 
2.43.0


From 5e46b63c546dd02b30b4e9bd3045047299d97a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 29/56] fix: SVG import builds with clang

The 'constexpr' had the static_assert evaluated when overload resolution only looks at the constructor.
---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d80c9c7..38db55e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6190,7 +6190,7 @@ template<
 
 /// Copy-Constructor from Closed Polyline
 	template<typename FPT2>
-	constexpr PolylineBase( const CPolyline_<FPT2>& other )
+	PolylineBase( const CPolyline_<FPT2>& other )
 	{
 		static_assert(
 			!(std::is_same<PLT,typ::IsOpen>::value),
-- 
2.43.0


From c49dbf15a4281f9d6512a7e371865b15c5de325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 30/56] fix: distTo() and isParallelTo() also handle an
 OSegment

---
 homog2d.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 38db55e..d59dcca 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4275,14 +4275,14 @@ public:
 
 	template<typename FPT2>
 	HOMOG2D_INUMTYPE distTo( const Line2d_<FPT2>& ) const;
-	template<typename FPT2>
-	HOMOG2D_INUMTYPE distTo( const Segment_<FPT2>& ) const;
+	template<typename SV,typename FPT2>
+	HOMOG2D_INUMTYPE distTo( const SegVec<SV,FPT2>& ) const;
 
 	template<typename FPT2>
 	bool isParallelTo( const Line2d_<FPT2>& ) const;
 
-	template<typename T>
-	bool isParallelTo( const Segment_<T>& seg ) const
+	template<typename SV,typename T>
+	bool isParallelTo( const SegVec<SV,T>& seg ) const
 	{
 		return isParallelTo( seg.getLine() );
 	}
@@ -9246,9 +9246,9 @@ LPBase<LP,FPT>::distTo( const Line2d_<FPT2>& li ) const
 }
 
 template<typename LP, typename FPT>
-template<typename FPT2>
+template<typename SV,typename FPT2>
 HOMOG2D_INUMTYPE
-LPBase<LP,FPT>::distTo( const Segment_<FPT2>& seg ) const
+LPBase<LP,FPT>::distTo( const SegVec<SV,FPT2>& seg ) const
 {
 	static_assert( !std::is_same_v<LP,typ::IsLine>, "Invalid: you cannot compute distance between a line and a segment" );
 	return seg.distTo( *this );
-- 
2.43.0


From 7fdbab359568bd34b39afe84e7ae825ce6a199d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 31/56] fix: getCenters() also handles OSegment containers

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d59dcca..48a78d9 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10806,7 +10806,7 @@ getCenters( const T& vsegs )
 
 	auto it = std::begin( vout );
 	for( const auto& seg: vsegs )
-		*it++ = getCenter( seg );
+		*it++ = seg.getCenter();
 	return vout;
 }
 
-- 
2.43.0


From 31aee5c7d7e1fb0902b0802411a56c8c2a21bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 32/56] fix: getLine( circle, circle ) can be called without
 template arguments

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 48a78d9..d1b2acd 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10751,9 +10751,9 @@ getSegment( const T1& c1, const T2& c2 )
 }
 
 /// Free function, returns line between two circle centers
-template<typename FPT1,typename FPT2,typename FPT3>
+template<typename FPT1,typename FPT2>
 Line2d_<FPT1>
-getLine( const Circle_<FPT2>& c1, const Circle_<FPT3>& c2 )
+getLine( const Circle_<FPT1>& c1, const Circle_<FPT2>& c2 )
 {
 	return Line2d_<FPT1>( c1.center(), c2.center() );
 }
-- 
2.43.0


From dcb81e57ebd5ce4d911e744b7e0a611f7e10fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 33/56] fix: union and intersection area of two rectangles
 holding different types

---
 homog2d.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d1b2acd..518dad6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7774,7 +7774,7 @@ detail::RectArea<FPT>
 FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
 {
 	if( *this == other )                      // if same rectangles, then
-		return detail::RectArea<FPT>(other);  // the intersection area is the rectangle
+		return detail::RectArea<FPT>(FRect_<FPT>(other));  // the intersection area is the rectangle
 
 	auto inter = this->intersects( other );
 
@@ -7783,7 +7783,7 @@ FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
 		if( this->isInside( other ) )
 			return detail::RectArea<FPT>(*this);
 		if( other.isInside( *this ) )
-			return detail::RectArea<FPT>(other);
+			return detail::RectArea<FPT>(FRect_<FPT>(other));
 		return detail::RectArea<FPT>();
 	}
 
@@ -8143,10 +8143,12 @@ see PolylineBase::minimize()
 template<typename FPT>
 template<typename FPT2>
 CPolyline_<FPT>
-FRect_<FPT>::unionArea( const FRect_<FPT2>& other ) const
+FRect_<FPT>::unionArea( const FRect_<FPT2>& other_rect ) const
 {
 	using namespace priv::runion;
 
+	const FRect_<FPT> other( other_rect );
+
 	if( *this == other )                  // if same rectangles, then
 		return CPolyline_<FPT>( other );   // returns one of them
 
-- 
2.43.0


From 2d33c6abd4fdaa51d9bd3af01ef6ff40b6dd5e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 34/56] fix: FRect_::moveTo() and intersectArea() with
 arguments of another type

---
 homog2d.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 518dad6..531ec59 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2916,7 +2916,9 @@ public:
 	template<typename T1>
 	void moveTo( const Point2d_<T1>& pt )
 	{
-		FRect_<FPT> out( pt, Point2d_<HOMOG2D_INUMTYPE>( pt.getX() + width(), pt.getY() + height() ) );
+		const Point2d_<HOMOG2D_INUMTYPE> p1( pt );
+		const Point2d_<HOMOG2D_INUMTYPE> p2( p1.getX() + width(), p1.getY() + height() );
+		FRect_<FPT> out( p1, p2 );
 		*this = out;
 	}
 
@@ -7771,10 +7773,11 @@ Algorithm:
 template<typename FPT>
 template<typename FPT2>
 detail::RectArea<FPT>
-FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
+FRect_<FPT>::intersectArea( const FRect_<FPT2>& other_rect ) const
 {
+	const FRect_<FPT> other( other_rect );
 	if( *this == other )                      // if same rectangles, then
-		return detail::RectArea<FPT>(FRect_<FPT>(other));  // the intersection area is the rectangle
+		return detail::RectArea<FPT>(other);  // the intersection area is the rectangle
 
 	auto inter = this->intersects( other );
 
@@ -7783,7 +7786,7 @@ FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
 		if( this->isInside( other ) )
 			return detail::RectArea<FPT>(*this);
 		if( other.isInside( *this ) )
-			return detail::RectArea<FPT>(FRect_<FPT>(other));
+			return detail::RectArea<FPT>(other);
 		return detail::RectArea<FPT>();
 	}
 
-- 
2.43.0


From f56767414ea4f22a3fe6b6d64c6cda47523f2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 35/56] fix: getLine() of two circles holding different types

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 531ec59..78395c9 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10760,7 +10760,7 @@ template<typename FPT1,typename FPT2>
 Line2d_<FPT1>
 getLine( const Circle_<FPT1>& c1, const Circle_<FPT2>& c2 )
 {
-	return Line2d_<FPT1>( c1.center(), c2.center() );
+	return Line2d_<FPT1>( c1.center(), Point2d_<FPT1>(c2.center()) );
 }
 
 /// Free function, returns middle point of segment
-- 
2.43.0


From 972286cd8cc3a1b6fe2d9f0bdf14fa6b230652b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 36/56] fix: FRect_::moveTo() builds with clang

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 78395c9..1f39052 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2916,8 +2916,8 @@ public:
 	template<typename T1>
 	void moveTo( const Point2d_<T1>& pt )
 	{
-		const Point2d_<HOMOG2D_INUMTYPE> p1( pt );
-		const Point2d_<HOMOG2D_INUMTYPE> p2( p1.getX() + width(), p1.getY() + height() );
+		const Point2d_<FPT> p1( pt );
+		const Point2d_<FPT> p2( p1.getX() + width(), p1.getY() + height() );
 		FRect_<FPT> out( p1, p2 );
 		*this = out;
 	}
-- 
2.43.0


From 7b5f04ae8ee83022124ec510c9635e1f789dfd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 37/56] fix: intersection of an OSegment with a Segment builds

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1f39052..ccb632c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8271,8 +8271,9 @@ detail::Intersect<detail::Inters_1,FPT>
 SegVec<SV,FPT>::intersects( const SegVec<SV2,FPT2>& s2 ) const
 {
 //	HOMOG2D_START;
-	if( *this == s2 )              // same segment => no intersection
-		return detail::Intersect<detail::Inters_1,FPT>();
+	if constexpr( std::is_same_v<SV,SV2> )
+		if( *this == s2 )          // same segment => no intersection
+			return detail::Intersect<detail::Inters_1,FPT>();
 
 	Line2d_<HOMOG2D_INUMTYPE> l1 = getLine();
 	Line2d_<HOMOG2D_INUMTYPE> l2 = s2.getLine();
-- 
2.43.0


From 991f1dc63e902efd8b995e9d139ba1aaa918a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 38/56] fix: getOrthogSegment() builds for other types than
 HOMOG2D_INUMTYPE

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ccb632c..e9dcaa9 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9015,7 +9015,7 @@ LPBase<LP,FPT>::getOrthogSegment( const Point2d_<FPT2>& pt ) const
 	if( dist < thr::nullDistance() )   // sanity check
 		HOMOG2D_THROW_ERROR_1( "unable to compute segment, distance too small=" << dist );
 #endif
-	auto pair_lines = getParallelLines( dist );
+	auto pair_lines = src.getParallelLines( dist );
 
 // determine on which of the two parallel lines does the point lie?
 	Line2d_<HOMOG2D_INUMTYPE>* pline = &pair_lines.first;
-- 
2.43.0


From 8b1de82bc60fc7df9f3abff2067ed308de512f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 39/56] fix: HOMOG2D_NOWARNINGS builds

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e9dcaa9..fd7a318 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -153,7 +153,7 @@ See https://github.com/skramm/homog2d
 	if( err::printWarnings() == true ) \
 		std::cerr << "homog2d warning (" << ++err::warningCount() << "), l. " << __LINE__ << ": " << a << "\n";
 #else
-#define HOMOG2D_LOG_WARNING
+#define HOMOG2D_LOG_WARNING( a )
 #endif
 
 /*
-- 
2.43.0


From 6661c22d0b0302d567ce314f302122cc7b0a9db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 40/56] fix: Polyline translate() and moveTo() drop the
 'normalized' flag

A translation can make coordinates equal (rounding), so the stored start
point may not be the minimal one any more and operator== could fail.
---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index fd7a318..c11fe0d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6470,6 +6470,7 @@ Also use the areCollinear() function
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
 		_attribs.setBad();
+		_plIsNormalized=false;
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
 	}
@@ -6502,6 +6503,7 @@ Also use the areCollinear() function
 		auto dx = new_org.getX() - getPoint(0).getX();
 		auto dy = new_org.getY() - getPoint(0).getY();
 		_attribs.setBad();
+		_plIsNormalized=false;
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
 	}
-- 
2.43.0


From 6789ee12ff3e13e73a1e8515ebaf8946ec432556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 41/56] fix: Ellipse: reset the 'normalized' flag when the
 matrix is rebuilt

The comparison operator normalizes its operands; after that, translate() and
moveTo() rewrote the matrix but kept the flag, so that comparing again gave
a wrong answer.
---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index c11fe0d..3102fd7 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2454,6 +2454,7 @@ is indeed a valid ellipse
 		HOMOG2D_INUMTYPE E =   - B * x0 - (HOMOG2D_INUMTYPE)2.*C * y0;
 		HOMOG2D_INUMTYPE F = A*x0*x0 + B*x0*y0 + C*y0*y0 - a2*b2;
 
+		detail::Matrix_<FPT>::_isNormalized = false;
 		data[0][0] = A;
 		data[1][1] = C;
 		data[2][2] = F;
-- 
2.43.0


From b738f1457f62221a9bc5d378eddd510b194ba252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 42/56] fix: Hmatrix_::inverse() leaves the homography
 unchanged when it throws

When the inverse could not be normalized, the exception left the object holding
the inverted, unnormalized matrix.
---
 homog2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 3102fd7..9e1cf70 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1823,8 +1823,10 @@ Thus some assert can get triggered elsewhere.
 /// Inverse matrix
 	Hmatrix_& inverse()
 	{
-		detail::Matrix_<FPT>::inverse();
-		normalize();
+		Hmatrix_ inv( *this );
+		inv.detail::Matrix_<FPT>::inverse();
+		inv.normalize();
+		*this = inv;
 		return *this;
 	}
 
-- 
2.43.0


From 04b8e187653642504481653309ef8177e9f7f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:49 +0000
Subject: [PATCH 43/56] fix: Circle_::set(pt1,pt2,pt3): the center is written
 last

With pt1 being (a reference on) the center of the circle itself, the radius was
computed from the center just overwritten, giving a null radius.
---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9e1cf70..561b9c1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5672,8 +5672,9 @@ Circle_<FPT>::set(
 	if( li1.isParallelTo(li2) )
 		HOMOG2D_THROW_ERROR_1( "unable, bisector lines are parallel" )
 #endif
-	center() = li1 * li2;
-	radius() = center().distTo(pt1);
+	const Point2d_<HOMOG2D_INUMTYPE> new_center( li1 * li2 );
+	radius() = new_center.distTo(pt1);
+	center() = new_center;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 6c0b13e908338a00b424b2c1a885a3d254416fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:21 +0000
Subject: [PATCH 44/56] fix: convexHull(): use the current null-determinant
 threshold

The orientation test used the build-time default value, ignoring a value set at run time with thr::nullDeter().
---
 homog2d.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 561b9c1..1aaca81 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11568,8 +11568,6 @@ sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 - 2 --> Counterclockwise
 
 \todo 20240326: this is subject to numerical instability, as it is based on differences.
-
-\todo 20230212: replace const value HOMOG2D_THR_ZERO_DETER with related static function
 */
 template<typename T>
 int orientation( Point2d_<T> p, Point2d_<T> q, Point2d_<T> r )
@@ -11583,7 +11581,7 @@ int orientation( Point2d_<T> p, Point2d_<T> q, Point2d_<T> r )
 
 	auto val = (qy - py) * (rx - qx) - (qx - px) * (ry - qy);
 
-	if( homog2d_abs(val) < HOMOG2D_THR_ZERO_DETER )
+	if( homog2d_abs(val) < thr::nullDeter() )
 		return 0;  // collinear
     return (val > 0 ? 1 : -1 ); // clock or counterclock wise
 }
-- 
2.43.0


From 0bd65d518548adeae1fca2cd189821a7c94aea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 45/56] fix: getBB() of a container of oriented segments

OSegment was not recognised as a segment by the trait used there, thus getBB() on any container of OSegment threw
("cannot compute BoundingBox of a container holding Line2d objects").
---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1aaca81..f0bc84a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2147,6 +2147,7 @@ template <typename V, size_t n> struct IsArray<std::array<V, n>> : std::true_typ
 /// Traits class, used for getBB() set of functions
 template<class>   struct IsSegment              : std::false_type {};
 template<class T> struct IsSegment<Segment_<T>> : std::true_type  {};
+template<class T> struct IsSegment<OSegment_<T>> : std::true_type {};
 template<class>   struct IsPoint                : std::false_type {};
 template<class T> struct IsPoint<Point2d_<T>>   : std::true_type  {};
 
-- 
2.43.0


From fd7661878804d630b70f71dda1c20d68600543d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:51 +0000
Subject: [PATCH 46/56] fix: SVG import: do not rewrite the shared command
 table on every call

---
 homog2d.hpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f0bc84a..a2d98c8 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12661,20 +12661,21 @@ getNextElem( const std::string& str, std::string::const_iterator& it )
 /// Returns nb of expected values for a given SVG path command.
 /// Ref: https://www.w3.org/TR/SVG2/paths.html
 inline
-std::map<char,int>&
+const std::map<char,int>&
 numberValues()
 {
-	static std::map<char,int> nbval;
-	nbval['M'] = 2; // M-m
-	nbval['L'] = 2; // L-l
-	nbval['H'] = 1; // H-h
-	nbval['V'] = 1; // V-v
-	nbval['C'] = 6; // C-c !NOT HANDLED!
-	nbval['S'] = 4; // S-s !NOT HANDLED!
-	nbval['Q'] = 4; // Q-q !NOT HANDLED!
-	nbval['T'] = 2; // T t !NOT HANDLED!
-	nbval['A'] = 7; // A-a !NOT HANDLED!
-	nbval['Z'] = 0; // Z-z
+	static const std::map<char,int> nbval = {
+		{ 'M', 2 }, // M-m
+		{ 'L', 2 }, // L-l
+		{ 'H', 1 }, // H-h
+		{ 'V', 1 }, // V-v
+		{ 'C', 6 }, // C-c !NOT HANDLED!
+		{ 'S', 4 }, // S-s !NOT HANDLED!
+		{ 'Q', 4 }, // Q-q !NOT HANDLED!
+		{ 'T', 2 }, // T t !NOT HANDLED!
+		{ 'A', 7 }, // A-a !NOT HANDLED!
+		{ 'Z', 0 }  // Z-z
+	};
 	return nbval;
 }
 
@@ -12772,7 +12773,7 @@ getCommand( char c )
 {
 	HOMOG2D_LOG( "search command for " << c );
 
-	static std::string commands( "MLHVCSQTAZ" ); // allowed SVG path commands (and their counterparts relative)
+	static const std::string commands( "MLHVCSQTAZ" ); // allowed SVG path commands (and their counterparts relative)
 	SvgPathCommand out;
 	std::string str( 1, c );
 	HOMOG2D_LOG( " str=" << str << " #=" << str.size() );
-- 
2.43.0


From a315bcf84e8a5d4c6a8692aa841d49c8a2b80fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:30 +0000
Subject: [PATCH 47/56] fix: getPtsInside(): reject the types it was meant to
 reject

The assertions compared the type tags with tags that no class uses (and the tag of polylines was the conditional itself), thus
getPtsInside() silently accepted open polylines, lines, points and segments.
---
 homog2d.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index a2d98c8..78cb373 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6123,7 +6123,7 @@ class PolylineBase: public detail::Common<FPT>
 public:
 	using FType = FPT;
 //	using PType = PLT;
-	using SType = std::conditional<std::is_same_v<PLT,typ::IsClosed>,typ::T_CPol,typ::T_OPol>;
+	using SType = std::conditional_t<std::is_same_v<PLT,typ::IsClosed>,typ::T_CPol,typ::T_OPol>;
 
 	using detail::Common<FPT>::isInside;
 
@@ -11294,9 +11294,10 @@ getPtsInside(
 )
 {
 	static_assert( !std::is_same_v<typename PRIM::SType, typ::T_OPol>,    "Cannot find points inside a Open Polyline" );
-	static_assert( !std::is_same_v<typename PRIM::SType, typ::T_Line>,    "Cannot find points inside a Line" );
-	static_assert( !std::is_same_v<typename PRIM::SType, typ::T_Point>,   "Cannot find points inside a Point" );
-	static_assert( !std::is_same_v<typename PRIM::SType, typ::T_Segment>, "Cannot find points inside a Segment" );
+	static_assert( !std::is_same_v<typename PRIM::SType, typ::IsLine>,    "Cannot find points inside a Line" );
+	static_assert( !std::is_same_v<typename PRIM::SType, typ::IsPoint>,   "Cannot find points inside a Point" );
+	static_assert( !std::is_same_v<typename PRIM::SType, typ::IsSegment>, "Cannot find points inside a Segment" );
+	static_assert( !std::is_same_v<typename PRIM::SType, typ::IsOSeg>,    "Cannot find points inside a Segment" );
 	static_assert( !trait::IsArray<CONT>::value, "Cannot use std::array as container" );
 
 	CONT out;
-- 
2.43.0


From 2643a2b591b1c12f05d7c678ef24d3da520f1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 48/56] fix: getPtsInside(): accept a std::list, as documented

Did not build: reserve() is not a member of std::list.
---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 78cb373..38d3cce 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11301,7 +11301,8 @@ getPtsInside(
 	static_assert( !trait::IsArray<CONT>::value, "Cannot use std::array as container" );
 
 	CONT out;
-	out.reserve( input_set.size() );
+	if constexpr( std::is_same_v<CONT,std::vector<typename CONT::value_type>> )
+		out.reserve( input_set.size() );
 
 	for( auto pt: input_set )
 		if( pt.isInside( prim ) )
-- 
2.43.0


From 04a60bee6510333c58a757640cab57eb5af641a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:57 +0000
Subject: [PATCH 49/56] fix: compute in HOMOG2D_INUMTYPE where the numeric type
 of the objects was used

The manual states that all intermediate computations use HOMOG2D_INUMTYPE. This was not the case in the product by a matrix,
the normalization and the comparison of lines, the line/circle intersection and the tangent segments: with float objects these were done in float.
---
 homog2d.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 38d3cce..709ae2d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8853,7 +8853,7 @@ LPBase<LP,FPT>::impl_normalize( const detail::BaseHelper<typename typ::IsLine>&
 	#ifdef HOMOG2D_USE_TTMATH
 		auto sq = ttmath::Sqrt( _v[0]*_v[0] + _v[1]*_v[1] );
 	#else
-		auto sq = std::hypot( _v[0], _v[1] );
+		auto sq = std::hypot( static_cast<HOMOG2D_INUMTYPE>(_v[0]), static_cast<HOMOG2D_INUMTYPE>(_v[1]) );
 	#endif
 #endif
 
@@ -9081,7 +9081,7 @@ LPBase<LP,FPT>::impl_op_equal( const LPBase<LP,FPT>& other, const detail::BaseHe
 	if( !this->isParallelTo( other ) )
 		return false;
 
-	if( std::fabs( _v[2] - other._v[2] ) > thr::nullDistance() )
+	if( homog2d_abs( static_cast<HOMOG2D_INUMTYPE>(_v[2]) - other._v[2] ) > thr::nullDistance() )
 		return false;
 
 	return true;
@@ -9551,7 +9551,7 @@ LPBase<LP,FPT>::impl_intersectsCircle(
 	if( radius < d0 )                            // if less than radius,
 		return out;                         // no intersection
 
-	auto d2 = radius*radius - d0*d0;
+	auto d2 = static_cast<HOMOG2D_INUMTYPE>(radius)*radius - d0*d0;
 
 // step 3: compute coordinates of middle point B
 	auto xb = - a * cp / a2b2;
@@ -9664,9 +9664,12 @@ product(
 	out.p_fillZero();
 	for( int i=0; i<3; i++ )
 		for( int j=0; j<3; j++ )
+		{
+			HOMOG2D_INUMTYPE sum = 0.;
 			for( int k=0; k<3; k++ )
-				out.value(i,j) +=
-					static_cast<HOMOG2D_INUMTYPE>( h1.value(i,k) ) * h2.value(k,j);
+				sum += static_cast<HOMOG2D_INUMTYPE>( h1.value(i,k) ) * h2.value(k,j);
+			out.value(i,j) = sum;
+		}
 }
 
 /// Implementation of product 3x3 by 3x1
@@ -9684,8 +9687,8 @@ product(
 	for( int i=0; i<3; i++ )
 	{
 		auto sum  = static_cast<HOMOG2D_INUMTYPE>(h._mdata[i][0]) * in._v[0];
-		sum      += h._mdata[i][1] * in._v[1];
-		sum      += h._mdata[i][2] * in._v[2];
+		sum      += static_cast<HOMOG2D_INUMTYPE>(h._mdata[i][1]) * in._v[1];
+		sum      += static_cast<HOMOG2D_INUMTYPE>(h._mdata[i][2]) * in._v[2];
 		out._v[i] = sum;
 	}
 }
@@ -10871,7 +10874,7 @@ getTanSegs( const Circle_<FPT1>& c1, const Circle_<FPT2>& c2 )
 #endif
 
 // if same radius, return the two segments parallel to the one joining the centers
-	if( homog2d_abs( c1.radius() - c2.radius() ) < thr::nullDistance() )
+	if( homog2d_abs( static_cast<HOMOG2D_INUMTYPE>(c1.radius()) - c2.radius() ) < thr::nullDistance() )
 	{
 		Segment_<HOMOG2D_INUMTYPE> seg_center( c1.center(), c2.center() );
 		return seg_center.getParallelSegs( c1.radius() );
-- 
2.43.0


From 33f06a7969d2a0b6186073882d1e74397b1845e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 50/56] fix: free functions getX(), getY() return the same
 value as the members

They narrowed it to the numeric type of the point, thus getX(pt)!=pt.getX() for some Point2dF.
---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 709ae2d..21e9fde 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9894,10 +9894,10 @@ operator * (
 /////////////////////////////////////////////////////////////////////////////
 
 template<typename FPT>
-FPT getX( const Point2d_<FPT>& pt) { return pt.getX(); }
+HOMOG2D_INUMTYPE getX( const Point2d_<FPT>& pt) { return pt.getX(); }
 
 template<typename FPT>
-FPT getY( const Point2d_<FPT>& pt) { return pt.getY(); }
+HOMOG2D_INUMTYPE getY( const Point2d_<FPT>& pt) { return pt.getY(); }
 
 //------------------------------------------------------------------
 /// Free function, returns -1 or +1 depending on the side of \c pt, related to \c li
-- 
2.43.0


From 3274c44adae1ed28ddae330d9065180d96d43dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 51/56] fix: use a value of pi that has the precision of
 HOMOG2D_INUMTYPE

With "long double", areas, lengths and angles using M_PI only had the precision of a double.
---
 homog2d.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 21e9fde..1fea2ef 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -236,6 +236,13 @@ See https://github.com/skramm/homog2d
 #define M_PI 3.14159265358979323846
 #endif
 
+/// Value of pi, with the precision of the internal numerical type (\c M_PI is only a double)
+#ifdef HOMOG2D_USE_TTMATH
+	#define HOMOG2D_PI static_cast<HOMOG2D_INUMTYPE>(M_PI)
+#else
+	#define HOMOG2D_PI static_cast<HOMOG2D_INUMTYPE>(3.141592653589793238462643383279502884L)
+#endif
+
 
 namespace h2d {
 
@@ -2378,7 +2385,7 @@ public:
 	HOMOG2D_INUMTYPE area() const
 	{
 		auto par = p_getParams<HOMOG2D_INUMTYPE>();
-		return M_PI * par.a * par.b;
+		return HOMOG2D_PI * par.a * par.b;
 	}
 // Circumference
 	HOMOG2D_INUMTYPE length() const;
@@ -3354,13 +3361,13 @@ We need Sfinae because there is another 3-args constructor (circle from 3 points
 /// Area of circle
 	HOMOG2D_INUMTYPE area() const
 	{
-		return static_cast<HOMOG2D_INUMTYPE>(_radius) * _radius * M_PI;
+		return static_cast<HOMOG2D_INUMTYPE>(_radius) * _radius * HOMOG2D_PI;
 	}
 
 /// Perimeter of circle
 	HOMOG2D_INUMTYPE length() const
 	{
-		return static_cast<HOMOG2D_INUMTYPE>(_radius) * M_PI * 2.0;
+		return static_cast<HOMOG2D_INUMTYPE>(_radius) * HOMOG2D_PI * 2.0;
 	}
 
 /// Returns Bounding Box of circle
@@ -6883,7 +6890,7 @@ PolylineBase<PLT,FPT>::set(
 	size_t n(ni);
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> v_pts(n);
 	auto it = std::begin( v_pts );
-	auto angle0 = (HOMOG2D_INUMTYPE)2. * M_PI / n;
+	auto angle0 = (HOMOG2D_INUMTYPE)2. * HOMOG2D_PI / n;
 
 	Point2d_<HOMOG2D_INUMTYPE> pt0( rad, 0. ); // initial point
 	HOMOG2D_INUMTYPE radius = 0.;
@@ -8614,7 +8621,7 @@ Ellipse_<FPT>::p_computeParams() const
 	if( homog2d_abs(B) < thr::nullDenom() )
 	{
 		if( A > C )
-			par.theta = static_cast<HOMOG2D_INUMTYPE>(M_PI) / 2.;
+			par.theta = HOMOG2D_PI / 2.;
 	}
 	else
 	{
@@ -8692,7 +8699,7 @@ Ellipse_<FPT>::length() const
 	auto ab_diff = par.a - par.b;
 	auto h = ab_diff * ab_diff / (ab_sum * ab_sum);
 	auto denom = (HOMOG2D_INUMTYPE)10. + homog2d_sqrt(4. - 3. * h);
-	return (par.a + par.b) * M_PI * ( 1. + 3. * h / denom );
+	return (par.a + par.b) * HOMOG2D_PI * ( 1. + 3. * h / denom );
 }
 
 //------------------------------------------------------------------
@@ -12582,7 +12589,7 @@ getEllipseRotateAttr( const char* rot_str )
 					auto angle = std::stod( v3[0] );
 					auto x0    = std::stod( v3[1] );
 					auto y0    = std::stod( v3[2] );
-					return std::make_pair( Point2d_<HOMOG2D_INUMTYPE>(x0,y0),angle*M_PI/180. );
+					return std::make_pair( Point2d_<HOMOG2D_INUMTYPE>(x0,y0),angle*HOMOG2D_PI/180. );
 				}
 				catch( std::exception& err )
 				{
-- 
2.43.0


From 5a07436e70a186a2db444d8009231f8f1a4ea2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:17 +0000
Subject: [PATCH 52/56] fix: compute in HOMOG2D_INUMTYPE in setRotation() and
 in the line-point distance

The cos/sin of a float angle and the norm of a Line2dF were computed as float.
---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1fea2ef..ded8066 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1949,8 +1949,8 @@ Thus some assert can get triggered elsewhere.
 		HOMOG2D_CHECK_IS_NUMBER(T);
 		auto& mat = detail::Matrix_<FPT>::_mdata;
 		init();
-		mat[0][0] = mat[1][1] = std::cos(theta);
-		mat[1][0] = std::sin(theta);
+		mat[0][0] = mat[1][1] = homog2d_cos( static_cast<HOMOG2D_INUMTYPE>(theta) );
+		mat[1][0] = homog2d_sin( static_cast<HOMOG2D_INUMTYPE>(theta) );
 		mat[0][1] = -mat[1][0];
 		detail::Matrix_<FPT>::_isNormalized = true;
 		_hasChanged = true;
@@ -9249,7 +9249,7 @@ LPBase<LP,FPT>::impl_distToPoint( const Point2d_<FPT2>& pt, const detail::BaseHe
 		+ static_cast<HOMOG2D_INUMTYPE>( _v[2] )
 	)
 #ifndef HOMOG2D_USE_TTMATH
-	/ std::hypot( _v[0], _v[1] );
+	/ std::hypot( static_cast<HOMOG2D_INUMTYPE>(_v[0]), static_cast<HOMOG2D_INUMTYPE>(_v[1]) );
 #else
 ;
 #endif
-- 
2.43.0


From 1f9e7a819eb26d57208c02398563a05df94f4dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:43 +0000
Subject: [PATCH 53/56] fix: a point aligned with a side of a polygon can be
 inside it

Point2d::isInside( CPolyline ) returned false as soon as the point was on the supporting line of
one of the segments, instead of on the segment itself: with a non convex polygon, points that are
inside were reported as outside.
---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ded8066..1973347 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9446,7 +9446,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 
 // step 2: check if point is lying on one of the segments. If so, return false;
 	for( auto seg: poly.getSegs() )
-		if( seg.getLine().distTo( *this ) < thr::nullDistance() )
+		if( seg.distTo( *this ) < thr::nullDistance() )
 				return false;
 
 	auto segarr = bbox.getExtended().getSegs();
-- 
2.43.0


From 70641ef59ce1914f865b3ac2a6a7b52e22d6caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:16 +0000
Subject: [PATCH 54/56] fix: getParallelDistance() returned NaN when the
 coefficients of the two (nearly equal) normals differ by their sign

---
 homog2d.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1973347..7571417 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11068,9 +11068,10 @@ getParallelDistance( const Line2d_<FPT>& li1, const Line2d_<FPT>& li2 )
 	const HOMOG2D_INUMTYPE b2 = ar2[1];
 	const HOMOG2D_INUMTYPE c2 = ar2[2];
 
-	HOMOG2D_INUMTYPE a = homog2d_sqrt( a1*a2 );
-	HOMOG2D_INUMTYPE b = homog2d_sqrt( b1*b2 );
-	return homog2d_abs( c1 - c2 ) / homog2d_sqrt( a*a + b*b );
+	HOMOG2D_INUMTYPE n2 = a1*a2 + b1*b2;  // negative if the two normals have opposite directions
+	if( n2 < 0. )
+		return homog2d_abs( c1 + c2 ) / homog2d_sqrt( -n2 );
+	return homog2d_abs( c1 - c2 ) / homog2d_sqrt( n2 );
 }
 
 /// Return angle of ellipse (free function)
-- 
2.43.0


From a2b3d70e094f11d1dcd0335d8ef94a769aaca4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:50 +0000
Subject: [PATCH 55/56] fix: FRect_::set() with two points of different numeric
 types did not compile

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 7571417..effcf46 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2820,7 +2820,7 @@ public:
 	template<typename FPT1,typename FPT2>
 	void set( const Point2d_<FPT1>& pa, const Point2d_<FPT2>& pb )
 	{
-		auto ppts = detail::getCorrectPoints( pa, pb );
+		auto ppts = detail::getCorrectPoints<HOMOG2D_INUMTYPE>( pa, pb );
 		_ptR1 = ppts.first;
 		_ptR2 = ppts.second;
 	}
-- 
2.43.0


From 2fff2bfb0a6768f179c30b0e96aae4f263ebe950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:50 +0000
Subject: [PATCH 56/56] fix: Circle_ from three points of different numeric
 types did not compile

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index effcf46..43a1345 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5667,10 +5667,10 @@ Circle_<FPT>::set(
 )
 {
 #ifndef HOMOG2D_NOCHECKS
-	if( areCollinear( pt1, pt2, pt3 ) )
+	if( areCollinear<HOMOG2D_INUMTYPE>( pt1, pt2, pt3 ) )
 		HOMOG2D_THROW_ERROR_1( "Unable, points are colinear" );
 #endif
-	auto pts = priv::getLargestDistancePoints( pt1, pt2, pt3 );
+	auto pts = priv::getLargestDistancePoints<Point2d_<HOMOG2D_INUMTYPE>>( pt1, pt2, pt3 );
 
 	auto seg1 = Segment_<HOMOG2D_INUMTYPE>( pts[0], pts[1] );
 	auto seg2 = Segment_<HOMOG2D_INUMTYPE>( pts[0], pts[2] );
-- 
2.43.0

