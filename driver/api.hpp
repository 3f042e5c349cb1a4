// Analysis driver: names every public entry point of homog2d.hpp once, so that
// every template of the header is instantiated and becomes analysable.  This
// file is only ever parsed by the fact extractor, never compiled or run.
#include "homog2d.hpp"
#include <list>
#include <sstream>

namespace drv {
using namespace h2d;

template<class T> T& mk();           // never defined: an arbitrary object
template<class T> void use( T&& );

template<class SH> void pt_in( const SH& s )
{
}

// every member / free function common to the sized primitives
template<class F,class P> void common_q( const P& p )
{
	p.type(); p.dtype(); p.dsize(); p.size(); p.length(); p.area();
	use( h2d::type(p) ); use( h2d::dtype(p) ); use( h2d::length(p) ); use( h2d::area(p) ); use( h2d::size(p) ); use( h2d::dsize(p) );
	p.isInside( mk<FRect_<F>>() );
	p.isInside( mk<Circle_<F>>() );
	p.isInside( mk<Ellipse_<F>>() );
	p.isInside( mk<OPolyline_<F>>() );
	p.isInside( mk<CPolyline_<F>>() );
	mk<std::ostream>() << p;
}
template<class F,class G,class P> void inters_q( const P& p )
{
	use( p.intersects( mk<Line2d_<F>>() ).size() );
	use( p.intersects( mk<Segment_<F>>() ).size() );
	use( p.intersects( mk<OSegment_<F>>() ).size() );
	use( p.intersects( mk<FRect_<F>>() ).get() );
	use( p.intersects( mk<Circle_<F>>() ).get() );
	use( p.intersects( mk<OPolyline_<F>>() ).get() );
	use( p.intersects( mk<CPolyline_<F>>() ).get() );
	use( p.intersects( mk<Line2d_<G>>() ).size() );
	use( p.intersects( mk<Segment_<G>>() ).size() );
	use( p.intersects( mk<FRect_<G>>() ).get() );
	use( p.intersects( mk<CPolyline_<G>>() ).get() );
}
template<class F,class P> void bb_q( const P& p )
{
	p.getBB(); use( h2d::getBB(p) );
}
template<class F,class G,class P> void moves( P& p )
{
	F f=0; G g=0;
	p.translate( f, f ); p.translate( f, g ); p.translate( std::pair<F,F>(f,f) ); p.translate( std::pair<F,G>(f,g) );
	p.moveTo( f, f ); p.moveTo( mk<Point2d_<F>>() ); p.moveTo( mk<Point2d_<G>>() );
	h2d::translate( p, f, f ); h2d::translate( p, std::pair<F,F>(f,f) );
	h2d::moveTo( p, mk<Point2d_<F>>() ); h2d::moveTo( p, f, f );
}
template<class F,class IMG,class P> void draws( const P& p, img::Image<IMG>& im )
{
	p.draw( im ); p.draw( im, img::DrawParams() );
	h2d::draw( im, p ); h2d::draw( im, p, img::DrawParams() ); im.draw( p ); im.draw( p, img::DrawParams() );
	std::vector<P> v; h2d::draw( im, v );
	std::function<img::DrawParams(int)> fn; h2d::draw( im, v, fn );
	std::array<P,3> a; h2d::draw( im, a );
	std::list<P> l; h2d::draw( im, l );
}

template<class F,class G> void points()
{
	typedef Point2d_<F> P; typedef Point2d_<G> Q; typedef Line2d_<F> L; typedef Line2d_<G> M;
	F f=0; G g=0;
	P p0; P p1( f, f ); P p2( f, g ); P p3( f, f, f ); P p4( mk<L>(), mk<L>() ); P p5( mk<Q>() ); P p6( p0 );
	P p8( std::array<F,3>{} ); P p9( std::vector<F>{} ); P p9c( std::vector<G>{} ); P p9b( mk<M>(), mk<M>() );
	P p10( std::array<G,3>{} );

	p0 = p1; p0 = P( mk<Q>() );
	const P& c = p1;
	use( c.getX() ); use( c.getY() ); use( c.get() ); 
	p1.set( f, f ); p1.set( f, f, f );
	p1.translate( f, f ); p1.translate( f, g ); p1.translate( std::pair<F,F>(f,f) ); p1.translate( std::pair<F,G>(f,g) );
	p1.moveTo( mk<P>() ); p1.moveTo( mk<Q>() ); h2d::moveTo( p1, mk<P>() );
	h2d::translate( p1, f, f ); h2d::translate( p1, std::pair<F,F>(f,f) );
	use( c.isInf() );
	c.distTo( mk<P>() ); c.distTo( mk<Q>() ); c.distTo( mk<L>() ); c.distTo( mk<M>() ); c.distTo( mk<Segment_<F>>() ); 
	use( c == p2 ); use( c != p2 ); use( c < p2 );
	c.isInside( mk<P>(), mk<P>() ); c.isInside( mk<Q>(), mk<Q>() );
	c.isInside( mk<P>(), f ); c.isInside( mk<FRect_<F>>() ); c.isInside( mk<FRect_<G>>() ); c.isInside( mk<Circle_<F>>() ); c.isInside( mk<Circle_<G>>() );
	c.isInside( mk<Ellipse_<F>>() ); c.isInside( mk<Ellipse_<G>>() );
	c.isInside( mk<OPolyline_<F>>() ); c.isInside( mk<CPolyline_<F>>() ); c.isInside( mk<CPolyline_<G>>() );
	c.type(); c.dtype(); c.dsize(); c.size(); c.length(); c.area();
	use( h2d::type(c) ); use( h2d::dtype(c) ); use( h2d::length(c) ); use( h2d::area(c) ); use( h2d::size(c) ); use( h2d::dsize(c) );
	use( h2d::getX(c) ); use( h2d::getY(c) ); use( h2d::dist( c, mk<Q>() ) ); use( h2d::dist( c, mk<P>() ) );
	use( side( c, mk<L>() ) ); use( areCollinear( c, c, c ) );
	use( c * mk<P>() ); use( c * mk<Q>() ); 
	mk<std::ostream>() << c;
	struct XY { XY(); XY( F, F ); };
	getPt<XY>( c ); c.template getPt<XY>(); getPts<XY>( mk<std::vector<P>>() );
	use( mk<Homogr_<F>>() * c ); use( mk<Homogr_<G>>() * c );
}
template<class F,class G> void lines()
{
	typedef Point2d_<F> P; typedef Point2d_<G> Q; typedef Line2d_<F> L; typedef Line2d_<G> M;
	F f=0; G g=0;
	L l0; L l1( f, f ); L l2( f, g ); L l3( f, f, f ); L l4( mk<P>(), mk<P>() ); L l5( mk<Q>(), mk<Q>() ); L l6( mk<M>() ); L l7( l0 );
	L l9( std::array<F,3>{} ); L l10( std::vector<F>{} ); L l11( f, f, f, f ); L l12( f, g, f, g );
	L l13( LineDir::H, f ); L l14( LineDir::V, mk<P>() ); L l15( mk<P>() ); L l16( mk<Q>() );
	l0 = l1;
	const L& c = l1;
	use( c.get() ); l1.set( f, f, f );
	l1.translate( f, f ); l1.translate( f, g ); l1.translate( std::pair<F,F>(f,f) ); l1.translate( std::pair<F,G>(f,g) );
	h2d::translate( l1, f, f );
	c.getCoord( GivenCoord::X, f ); c.getCoord( GivenCoord::Y, g ); c.getPoint( GivenCoord::X, f ); c.getPoints( GivenCoord::X, f, f ); c.getPoints( mk<P>(), f ); c.getPoints( mk<Q>(), g );
	c.getPoints( mk<P>(), 2 );
	c.getOrthogLine( GivenCoord::X, f ); c.getOrthogLine( mk<P>() ); c.getOrthogLine( mk<Q>() ); c.getRotatedLine( mk<P>(), f ); c.getRotatedLine( mk<Q>(), g ); 
	c.getOrthogSegment( mk<P>() ); c.getOrthogSegment( mk<Q>() );
	c.getParallelLine( mk<P>() ); c.getParallelLines( f ); c.getParallelLines( g ); c.getParallelLine( mk<Q>() );
	c.distTo( mk<P>() ); c.distTo( mk<Q>() ); 
	c.isParallelTo( mk<L>() ); c.isParallelTo( mk<M>() ); c.isParallelTo( mk<Segment_<F>>() ); c.isParallelTo( mk<Segment_<G>>() );
	c.getAngle( mk<L>() ); c.getAngle( mk<M>() ); c.getAngle( mk<Segment_<F>>() ); c.getAngle( mk<OSegment_<F>>() );
	use( h2d::getAngle( c, c ) ); use( h2d::areParallel( c, c ) ); use( h2d::areParallel( c, mk<Segment_<F>>() ) );
	use( h2d::getParallelDistance( c, mk<L>() ) );
	inters_q<F,G>( c ); use( c.intersects( mk<Segment_<F>>() ).get() ); use( c.intersects( mk<L>() ).get() );
	use( c.intersects( mk<P>(), mk<P>() ).get() ); use( c.intersects( mk<Q>(), mk<Q>() ).get() ); use( c.intersects( mk<P>(), f ).get() );
	use( c.intersects( mk<Circle_<G>>() ).get() );
	use( c == l0 ); use( c != l0 ); 
	c.isInside( mk<FRect_<F>>() ); c.isInside( mk<Circle_<F>>() ); c.isInside( mk<Ellipse_<F>>() ); c.isInside( mk<OPolyline_<F>>() ); c.isInside( mk<CPolyline_<F>>() );
	c.isInside( mk<P>(), mk<P>() ); 
	c.type(); c.dtype(); c.dsize(); c.size(); c.length(); c.area();
	use( h2d::type(c) ); use( h2d::dtype(c) ); use( h2d::length(c) ); use( h2d::area(c) ); use( h2d::size(c) ); use( h2d::dsize(c) );
	use( c * mk<L>() ); use( c * mk<M>() ); mk<std::ostream>() << c;
	use( mk<Homogr_<F>>() * c ); use( mk<Homogr_<G>>() * c );
}
template<class W,class F,class G> void mat()
{
	typedef Hmatrix_<W,F> H; typedef Hmatrix_<W,G> K;
	F f=0;
	H h1( mk<H>() ); H& h=mk<H>(); H h2( mk<std::vector<std::vector<F>>>() ); H h3( mk<std::array<std::array<F,3>,3>>() ); 
	H h2b( mk<std::vector<std::vector<G>>>() ); H h3b( mk<std::array<std::array<G,3>,3>>() );
	h = h1;
	const H& c = h1;
	c.value( 0, 0 ); h.value( 0, 0 ) = f; h.set( 0, 0, f ); use( c.getRaw() );
	h.normalize(); c.isNormalized(); h.transpose(); h.inverse(); use( c == h ); use( c != h );
	c.dtype(); c.dsize(); mk<std::ostream>() << c;
	use( c * h );
}
template<class F,class G> void homogs()
{
	typedef Homogr_<F> H; typedef Homogr_<G> K;
	F f=0; G g=0;
	mat<typ::IsHomogr,F,G>(); 
	H h0; H ha( f ); H hb( f, f ); H hc( f, g );
	h0.init(); h0.setRotation( f ); h0.addRotation( f ); h0.setTranslation( f, f ); h0.addTranslation( f, f ); h0.setScale( f ); h0.addScale( f ); h0.setScale( f, f ); h0.addScale( f, f );
	h0.setTranslation( f, g ); h0.addTranslation( f, f ); h0.setRotation( g ); h0.addRotation( g ); h0.setScale( f, g ); h0.addScale( f, g ); h0.setScale( g ); h0.addScale( g );
	h0.applyTo( mk<std::vector<Point2d_<F>>>() ); h0.applyTo( mk<std::list<Line2d_<F>>>() ); h0.applyTo( mk<std::array<Segment_<F>,4>>() ); h0.applyTo( mk<std::vector<Point2d_<G>>>() );
	use( h0 * mk<Segment_<F>>() ); use( h0 * mk<OSegment_<F>>() ); use( h0 * mk<OPolyline_<F>>() ); use( h0 * mk<CPolyline_<F>>() ); use( h0 * mk<FRect_<F>>() ); use( h0 * mk<Circle_<F>>() ); use( h0 * mk<Ellipse_<F>>() );
	use( mk<K>() * mk<Segment_<F>>() ); use( mk<K>() * mk<OPolyline_<F>>() ); use( mk<K>() * mk<FRect_<F>>() ); use( mk<K>() * mk<Circle_<F>>() ); use( mk<K>() * mk<Ellipse_<F>>() );
	use( h0 * mk<std::vector<Point2d_<F>>>() ); use( h0 * mk<std::list<Line2d_<F>>>() ); use( h0 * mk<std::array<Segment_<F>,4>>() );
#if defined(HOMOG2D_USE_OPENCV) || defined(HOMOG2D_USE_EIGEN)
	use( h2d::buildFrom4Points( mk<std::vector<Point2d_<F>>>(), mk<std::vector<Point2d_<F>>>() ) ); h0.buildFrom4Points( mk<std::vector<Point2d_<F>>>(), mk<std::vector<Point2d_<F>>>() ); h0.buildFrom4Points( mk<std::vector<Point2d_<F>>>(), mk<std::vector<Point2d_<F>>>(), 0 );
#endif
}
template<class SV,class F,class G> void segs()
{
	typedef Point2d_<F> P; typedef Point2d_<G> Q; typedef base::SegVec<SV,F> S; typedef base::SegVec<SV,G> R;
	F f=0; G g=0;
	S s0; S s1( mk<P>(), mk<P>() ); S s2( f, f, f, f ); S s3( mk<PointPair_<F>>() ); S s4( s0 ); S s5( mk<R>() ); S s6( mk<Q>(), mk<Q>() ); S s7( f, g, f, g ); S s8( mk<P>(), mk<Q>() );
	S s10( mk<OSegment_<F>>() ); S s12( mk<OSegment_<G>>() ); if constexpr( std::is_same_v<SV,typ::IsSegment> ) { S s9( mk<Segment_<F>>() ); S s11( mk<Segment_<G>>() ); }
	s0 = s1;
	s0.set( mk<P>(), mk<P>() ); s0.set( mk<Q>(), mk<Q>() ); s0.set( mk<PointPair_<F>>() ); s0.set( f, f, f, f ); s0.set( f, g, f, g );
	moves<F,G>( s0 );
	const S& c = s1;
	common_q<F>( c ); inters_q<F,G>( c ); use( c.intersects( mk<S>() ).get() ); use( c.intersects( mk<Line2d_<F>>() ).get() ); use( c.intersects( mk<Circle_<G>>() ).get() );
	common_q<G>( c );
	c.getAngle( mk<Line2d_<F>>() ); c.getAngle( mk<Segment_<F>>() ); c.getAngle( mk<OSegment_<F>>() ); c.getAngle( mk<Segment_<G>>() ); use( h2d::getAngle( c, c ) );
	c.isParallelTo( mk<Line2d_<F>>() ); c.isParallelTo( mk<S>() ); use( h2d::areParallel( c, mk<Line2d_<F>>() ) );
	use( c == s0 ); use( c != s0 ); use( c < s0 ); use( c == mk<R>() ); use( c != mk<R>() );
	use( c.getPts() ); c.getLine(); use( c.getCenter() ); c.getBisector(); c.getOrthogSegs(); c.getOrthogPts(); c.getParallelSegs( f ); c.getParallelSegs( g ); c.split(); 
	c.distTo( mk<P>() ); c.distTo( mk<Q>() ); int segDistCase=0; c.distTo( mk<P>(), &segDistCase );
	use( h2d::getPts( mk<Segment_<F>>() ) ); use( h2d::getLine( mk<Segment_<F>>() ) ); use( h2d::getExtended( mk<Segment_<F>>() ) ); use( h2d::split( c ) ); use( h2d::getOrthogSegs( mk<Segment_<F>>() ) ); use( h2d::getOrthogPts( mk<Segment_<F>>() ) );
	use( h2d::getCenter( mk<Segment_<F>>() ) ); use( h2d::getCenter( c ) ); use( h2d::getBisector( mk<Segment_<F>>() ) ); use( h2d::getParallelSegs( mk<Segment_<F>>(), f ) );
	use( h2d::getCenters( mk<std::vector<S>>() ) ); use( h2d::getLines( mk<std::vector<S>>() ) );  use( h2d::getSegment( mk<Circle_<F>>(), mk<Circle_<F>>() ) );
	use( c * s0 ); 
#ifdef HOMOG2D_ENABLE_VRTP
	bb_q<F>( mk<std::vector<Segment_<F>>>() [0] );
#endif
	use( h2d::getBB( mk<std::vector<S>>() ) );
}
template<class F,class G> void oseg()
{
	typedef Point2d_<F> P; typedef OSegment_<F> S; F f=0; G g=0;
	S s0; const S& c = s0;
	use( -c ); use( c.getVector() ); c.split( f ); c.split( g ); c.getPointAt( f ); c.getPointAt( g ); c.getPointSide( mk<P>() ); c.getPointSide( mk<Point2d_<G>>() ); use( h2d::split( c, f ) );
	Segment_<F> t; t.getExtended();
	use( c.getAngle( mk<S>() ) );
}
template<class F,class G> void circles()
{
	typedef Point2d_<F> P; typedef Point2d_<G> Q; typedef Circle_<F> C; typedef Circle_<G> D;
	F f=0; G g=0;
	C c0; C c1( f ); C c2( mk<P>(), f ); C c3( f, f, f ); C c4( mk<P>(), mk<P>() ); C c5( mk<P>(), mk<P>(), mk<P>() ); C c6( mk<D>() ); C c7( c0 ); C c8( mk<std::vector<P>>() ); C c9( mk<Q>(), mk<Q>() ); C c10( mk<Q>(), mk<Q>(), mk<Q>() ); C c12( mk<Q>(), g );
	c0 = c1;
	const C& c = c1;
	c0.set( mk<P>() ); c0.set( mk<Q>() ); c0.set( f ); c0.set( g ); c0.set( mk<P>(), f ); c0.set( mk<Q>(), g ); c0.set( f, f, f ); c0.set( mk<P>(), mk<P>() ); c0.set( mk<Q>(), mk<Q>() ); c0.set( mk<P>(), mk<P>(), mk<P>() ); c0.set( mk<Q>(), mk<Q>(), mk<Q>() ); c0.set( mk<std::vector<P>>() );
	c0.radius(); c0.center(); c.radius(); c.center(); use( h2d::radius(c) ); use( h2d::center(c) ); use( h2d::radius(c0) ); use( h2d::center(c0) ); use( h2d::getCenter( c ) );
	moves<F,G>( c0 ); common_q<F>( c ); inters_q<F,G>( c ); bb_q<F>( c ); use( c.intersects( mk<D>() ).get() ); use( c.intersects( mk<Line2d_<F>>() ).get() ); use( c.intersects( mk<Segment_<F>>() ).get() );
	c.isInside( mk<P>(), mk<P>() ); c.isInside( mk<Q>(), mk<Q>() ); c.isInside( mk<FRect_<G>>() ); c.isInside( mk<D>() ); 
	use( c == c0 ); use( c != c0 ); use( c == mk<D>() );
	use( h2d::getTanSegs( c, mk<D>() ) ); use( h2d::getLine( c, mk<D>() ) ); use( h2d::getTanSegs( c, c ) );
}
template<class F,class G> void rects()
{
	typedef Point2d_<F> P; typedef Point2d_<G> Q; typedef FRect_<F> R; typedef FRect_<G> T;
	F f=0; G g=0;
	R r0; R r1; R r2( mk<P>(), mk<P>() ); R r3( mk<Q>(), mk<Q>() ); R r4( f, f, f, f ); R r5( mk<P>(), f, f ); R r6( mk<T>() ); R r7( r0 ); R r8( mk<PointPair_<F>>() ); R r9( f, g, f, g ); R r10( mk<Q>(), g, g );
	r0 = r1;
	const R& c = r1;
	r0.set( mk<P>(), mk<P>() ); r0.set( mk<Q>(), mk<Q>() ); r0.set( f, f, f, f );
	common_q<F>( c ); inters_q<F,G>( c ); bb_q<F>( c ); use( c.intersects( mk<Circle_<G>>() ).get() );
	r0.translate( f, f ); r0.translate( f, g ); r0.translate( std::pair<F,F>(f,f) ); r0.translate( std::pair<F,G>(f,g) ); h2d::translate( r0, f, f );
#ifndef DRV_NO_FRECT_MOVETO
	r0.moveTo( f, f ); r0.moveTo( mk<P>() ); r0.moveTo( mk<Q>() ); h2d::moveTo( r0, mk<P>() );
#endif
	c.getPts(); c.get4Pts(); c.getSegs(); c.getDiagonals(); c.getCenter(); c.height(); c.width(); c.getExtended(); c.getBoundingCircle(); c.getInscribedCircle();
	use( h2d::getPts(c) ); use( h2d::get4Pts(c) ); use( h2d::getSegs(c) ); use( h2d::getDiagonals(c) ); use( h2d::getCenter(c) ); use( h2d::height(c) ); use( h2d::width(c) ); use( h2d::getExtended(c) ); use( h2d::getBoundingCircle(c) ); use( h2d::getInscribedCircle(c) );
	use( c.unionArea( mk<T>() ) ); use( c.unionArea( mk<R>() ) ); use( c.intersectArea( mk<T>() ).get() ); use( c.intersectArea( mk<R>() )() ); use( c | mk<T>() ); use( c & mk<T>() ); use( c | c ); use( c & c ); use( h2d::unionArea( c, mk<T>() ) ); use( h2d::intersectArea( c, mk<T>() ) ); use( h2d::IoU( c, mk<T>() ) );
	use( c == r0 ); use( c != r0 ); use( c == mk<T>() ); use( c != mk<T>() );
	r0.rotate( Rotate::CW ); r0.rotate( Rotate::CW, mk<P>() ); r0.rotate( Rotate::CW, mk<Q>() ); h2d::rotate( r0, Rotate::CW ); h2d::rotate( r0, Rotate::CW, mk<P>() );
	h2d::getBB( mk<std::vector<R>>() );
}
template<class F,class G> void ellipses()
{
	typedef Point2d_<F> P; typedef Point2d_<G> Q; typedef Ellipse_<F> E; typedef Ellipse_<G> D;
	F f=0; G g=0;
	E e0; E e1( f, f ); E e2( f, f, f, f ); E e3( f, f, f, f, f ); E e4( mk<P>(), f, f, f ); E e4b( mk<P>() ); E e5( mk<Q>(), g, g, g ); E e6( mk<Circle_<F>>() ); E e7( mk<Circle_<G>>() ); E e8( mk<D>() ); E e9( e0 );
	e0 = e1;
	const E& c = e1;
	common_q<F>( c ); c.getOBB(); c.getCenter(); c.getMajMin(); c.angle(); c.isCircle(); c.isCircle( 1.E-3 ); c.getAxisLines(); bb_q<F>( c );
	use( h2d::getOBB(c) ); use( h2d::getCenter(c) ); use( h2d::isCircle(c) ); use( h2d::getAxisLines(c) ); use( h2d::angle(c) );
	moves<F,G>( e0 );
	use( c == e0 ); use( c != e0 ); c.pointIsInside( mk<P>() ); c.pointIsInside( mk<Q>() ); 
	mk<std::ostream>() << mk<detail::EllParams<F>>(); use( detail::EllParams<F>( mk<detail::EllParams<G>>() ) );
	mk<std::ostream>() << mk<detail::Matrix_<F>>();
}
template<class PLT,class F,class G> void polys()
{
	typedef Point2d_<F> P; typedef Point2d_<G> Q; typedef base::PolylineBase<PLT,F> O; typedef base::PolylineBase<PLT,G> O2;
	F f=0; G g=0;
	O p0; O p1( mk<std::vector<P>>() ); O p2( mk<std::vector<Q>>() ); O p5( p0 ); O p6( mk<O2>() ); O p7( mk<OPolyline_<F>>() ); O p7b( mk<OPolyline_<G>>() ); O p11( mk<std::list<P>>() ); O p12( mk<std::array<P,4>>() );
	p0 = p1;
	const O& c = p1;
	p0.set( mk<std::vector<P>>() ); p0.set( mk<std::vector<Q>>() ); p0.set( mk<std::list<P>>() );
	if constexpr( std::is_same_v<PLT,typ::IsClosed> )
	{
		O p8( mk<FRect_<F>>() ); O p8b( mk<FRect_<G>>() ); O p10( f, 5 ); O p10b( f, (size_t)5 );
		p0.set( mk<FRect_<F>>() ); p0.set( mk<FRect_<G>>() ); p0.set( f, 5 ); p0.set( f, (size_t)5 );
		p0.setParallelogram( mk<P>(), mk<P>(), mk<P>() ); p0.setParallelogram( mk<Q>(), mk<Q>(), mk<Q>() );
	}

	p0.clear(); c.size(); c.nbSegs(); c.isSimple(); c.isConvex(); c.centroid(); c.length(); c.area(); c.getPts(); p0.getPts(); c.getPoint( 0 ); c.getSegment( 0 ); c.getOSegment( 0 ); c.getSegs(); c.getOSegs(); c.getBB(); c.getLmPoint(); c.getRmPoint(); c.getTmPoint(); c.getBmPoint(); c.convexHull(); c.getBisectorLines(); c.getOffsetPoly( f ); c.getOffsetPoly( g ); c.getOffsetPoly( f, OffsetPolyParams() );
	p0.rotate( Rotate::CW ); p0.rotate( Rotate::CW, mk<P>() ); p0.rotate( Rotate::CW, mk<Q>() ); p0.minimize();
#ifndef DRV_NO_POLY_EXTREME
	c.getExtremePoint( CardDir::Left );
#endif
	moves<F,G>( p0 ); common_q<F>( c ); inters_q<F,G>( c ); bb_q<F>( c );
	use( c == p0 ); use( c != p0 ); use( c == mk<O2>() ); use( c != mk<O2>() ); use( c == mk<OPolyline_<F>>() ); use( c != mk<CPolyline_<F>>() );
	use( h2d::isSimple(c) ); use( h2d::isConvex(c) ); use( h2d::nbSegs(c) ); use( h2d::getSegs(c) ); use( h2d::centroid(c) ); use( h2d::convexHull(c) ); use( h2d::getBisectorLines(c) );
	use( h2d::getLmPoint(c) ); use( h2d::getRmPoint(c) ); use( h2d::getTmPoint(c) ); use( h2d::getBmPoint(c) ); use( h2d::getExtremePoint( CardDir::Left, c ) );
	h2d::rotate( p0, Rotate::CW ); h2d::rotate( p0, Rotate::CW, mk<P>() );
	use( h2d::getClosestPoints( c, mk<OPolyline_<F>>() ).getPoints() ); auto cp = h2d::getClosestPoints( c, mk<CPolyline_<G>>() ); use( cp.getPoints() ); cp.getMinDist(); cp.getIndexes(); cp.print();
}

template<class T,class F> void bbpair( const T& a )
{
	use( h2d::getBB( a, mk<Point2d_<F>>() ) ); use( h2d::getBB( a, mk<Segment_<F>>() ) ); use( h2d::getBB( a, mk<OSegment_<F>>() ) ); use( h2d::getBB( a, mk<FRect_<F>>() ) );
	use( h2d::getBB( a, mk<Circle_<F>>() ) ); use( h2d::getBB( a, mk<Ellipse_<F>>() ) ); use( h2d::getBB( a, mk<OPolyline_<F>>() ) ); use( h2d::getBB( a, mk<CPolyline_<F>>() ) );
}
template<class S,class F> void ptsin( const S& s )
{
	use( h2d::getPtsInside( mk<std::vector<Point2d_<F>>>(), s ) );
}
template<class F,class G> void free_f()
{
	typedef Point2d_<F> P;
	std::vector<P> v; std::list<P> l; std::array<P,4> a;
	bbpair<P,G>( mk<P>() ); bbpair<Segment_<F>,G>( mk<Segment_<F>>() ); bbpair<OSegment_<F>,F>( mk<OSegment_<F>>() ); bbpair<FRect_<F>,G>( mk<FRect_<F>>() ); bbpair<Circle_<F>,G>( mk<Circle_<F>>() );
	bbpair<Ellipse_<F>,G>( mk<Ellipse_<F>>() ); bbpair<OPolyline_<F>,G>( mk<OPolyline_<F>>() ); bbpair<CPolyline_<F>,F>( mk<CPolyline_<F>>() );
	use( h2d::getBB( v ) ); use( h2d::getBB( l ) ); use( h2d::getBB( a ) ); use( h2d::getBB( mk<std::vector<Circle_<F>>>() ) ); use( h2d::getBB( mk<std::vector<CPolyline_<F>>>() ) ); use( h2d::getBB( mk<std::vector<OPolyline_<F>>>() ) ); use( h2d::getBB( mk<std::vector<OSegment_<F>>>() ) ); use( h2d::getBB( mk<std::vector<FRect_<F>>>() ) ); use( h2d::getBB( mk<std::vector<Ellipse_<F>>>() ) );
	use( h2d::getBB( mk<PointPair_<F>>(), mk<PointPair_<F>>() ) );
	use( base::convexHull( v ) ); use( h2d::getLmPoint( v ) ); use( h2d::getRmPoint( v ) ); use( h2d::getTmPoint( v ) ); use( h2d::getBmPoint( v ) ); use( h2d::getLmPoint( l ) ); use( h2d::getExtremePoint( CardDir::Left, v ) ); use( h2d::getBmPoint( a ) );
	use( h2d::findNearestPoint( mk<P>(), v ) ); use( h2d::findFarthestPoint( mk<P>(), v ) ); use( h2d::findNearestFarthestPoint( mk<P>(), v ) ); use( h2d::findNearestPoint( mk<P>(), a ) );
	ptsin<FRect_<F>,F>( mk<FRect_<F>>() ); ptsin<Circle_<F>,F>( mk<Circle_<F>>() ); ptsin<Ellipse_<F>,F>( mk<Ellipse_<F>>() ); ptsin<CPolyline_<F>,F>( mk<CPolyline_<F>>() );
	std::ostream& o = mk<std::ostream>(); o << v; o << l; o << mk<PointPair_<F>>(); o << mk<std::vector<Segment_<F>>>();
	use( mk<Segment_<F>>().intersects( mk<Segment_<F>>() ) ); o << mk<Line2d_<F>>().intersects( mk<Circle_<F>>() ); o << mk<FRect_<F>>().intersects( mk<Circle_<F>>() );
	detail::Intersect<detail::Inters_1,F> i1( mk<detail::Intersect<detail::Inters_1,G>>() ); use( i1() ); use( i1.size() ); use( i1.get() ); i1.set( mk<P>() ); detail::Intersect<detail::Inters_1,F> i1b( mk<P>() );
	detail::Intersect<detail::Inters_2,F> i2( mk<detail::Intersect<detail::Inters_2,G>>() ); use( i2() ); use( i2.size() ); use( i2.get() );
	detail::IntersectM<F> im( mk<detail::IntersectM<G>>() ); use( im() ); use( im.size() ); use( im.get() ); o << im; im.add( mk<P>() ); im.add( v );
	use( getString( mk<Type>() ) ); use( getString( mk<Dtype>() ) );
	priv::printVector( mk<std::vector<int>>(), "a" ); priv::printArray( mk<std::array<int,3>>(), "a" ); priv::printVectorPairs( mk<std::vector<std::pair<int,int>>>() );
	thr::printThresholds( o );
	use( thr::nullDistance() ); use( thr::nullOrthogDistance() ); use( thr::nullAngleValue() ); use( thr::nullDenom() ); use( thr::nullDeter() ); use( thr::doNotCheckRadius() );
}
#ifdef HOMOG2D_ENABLE_VRTP
template<class F> void vrtp()
{
	typedef CommonType_<F> V;
	V v; const V& c = v;
	use( h2d::type(c) ); use( h2d::dtype(c) ); use( h2d::length(c) ); use( h2d::area(c) ); use( h2d::size(c) );
	use( std::visit( fct::TypeFunct{}, c ) ); use( std::visit( fct::DTypeFunct{}, c ) ); use( std::visit( fct::LengthFunct{}, c ) ); use( std::visit( fct::AreaFunct{}, c ) ); use( std::visit( fct::SizeFunct{}, c ) );
	use( std::visit( fct::TransformFunct<F>( mk<Homogr_<F>>() ), c ) ); use( std::visit( fct::BBFunct{}, c ) ); use( std::visit( fct::PtPairFunct{}, c ) );
	img::Image<img::SvgImage> im; img::DrawParams dp; fct::DrawFunct<img::SvgImage> df( im, dp ); std::visit( df, c );
	h2d::draw( im, mk<std::vector<V>>() );
	use( h2d::transform( mk<Homogr_<F>>(), c ) ); use( h2d::transform( mk<Homogr_<F>>(), mk<Segment_<F>>() ) ); use( h2d::getBB( mk<std::vector<V>>() ) );
	Segment_<F> s = fct::VariantUnwrapper{ v }; (void)s;
	h2d::getBB( mk<Point2d_<F>>() ); mk<Line2d_<F>>().getBB();
}
#endif
template<class IMG,class F> void drawing()
{
	img::Image<IMG> im; img::Image<IMG> im2( 10, 10 );
	im.getReal(); const img::Image<IMG>& cim = im; cim.getReal(); im.size(); im.cols(); im.rows(); im.write( "x" ); im.clear(); im.clear( img::Color(0,0,0) ); im.clear( 1, 2, 3 ); im.clear( 100 ); im.setSize( 10, 20 ); im.setSize( std::pair<size_t,size_t>(1,2) );
	im.drawText( "txt", mk<Point2d_<F>>() ); im.drawText( "txt", mk<Point2d_<F>>(), img::DrawParams() ); h2d::drawText( im, "txt", mk<Point2d_<F>>() );
	im.draw( mk<PointPair_<F>>() ); im.draw( mk<std::pair<Segment_<F>,Segment_<F>>>() ); h2d::draw( im, mk<PointPair_<F>>() );
	draws<F>( mk<Point2d_<F>>(), im ); draws<F>( mk<Line2d_<F>>(), im ); draws<F>( mk<Segment_<F>>(), im ); draws<F>( mk<OSegment_<F>>(), im ); draws<F>( mk<Circle_<F>>(), im ); draws<F>( mk<FRect_<F>>(), im ); draws<F>( mk<Ellipse_<F>>(), im ); draws<F>( mk<OPolyline_<F>>(), im ); draws<F>( mk<CPolyline_<F>>(), im );
}
#ifdef HOMOG2D_USE_BOOSTGEOM
template<class F> void boostg()
{
	namespace bg = boost::geometry;
	typedef bg::model::point<F,2,bg::cs::cartesian> BP; typedef bg::model::d2::point_xy<F> BQ;
	CPolyline_<F> a( mk<bg::model::polygon<BP>>() ), a2( mk<bg::model::polygon<BQ,true,false>>() ); OPolyline_<F> b( mk<bg::model::polygon<BP>>() ), b2( mk<bg::model::polygon<BQ,true,false>>() );
	Point2d_<F> p( mk<BP>() ), q( mk<BQ>() );
	use( h2d::getPt<BP>( p ) ); use( h2d::getPts<BQ>( mk<std::vector<Point2d_<F>>>() ) );
}
#endif
#ifdef HOMOG2D_USE_OPENCV
template<class F> void opencv()
{
	const Point2d_<F>& p = mk<Point2d_<F>>();
	use( p.getCvPti() ); use( p.getCvPtd() ); use( p.getCvPtf() ); use( h2d::getCvPti( p ) ); use( h2d::getCvPtd( p ) ); use( h2d::getCvPtf( p ) );
	use( h2d::getPts<cv::Point2f>( mk<std::vector<Point2d_<F>>>() ) ); use( h2d::getPt<cv::Point2d>( p ) );
	use( h2d::getFRect<F>( mk<cv::Mat>() ) );
	Homogr_<F> h( mk<cv::Mat>() ); h = mk<cv::Mat>(); const Homogr_<F>& c = h; c.copyTo( mk<cv::Mat>() ); c.copyTo( mk<cv::Mat>(), CV_32F );
	Point2d_<F> q( mk<cv::Point2d>() ); Line2d_<F> l( mk<cv::Point2d>() );
}
#endif
template<class F,class G> void all()
{
	points<F,G>(); lines<F,G>(); homogs<F,G>(); segs<typ::IsSegment,F,G>(); segs<typ::IsOSeg,F,G>(); oseg<F,G>(); circles<F,G>(); rects<F,G>(); ellipses<F,G>();
	polys<typ::IsOpen,F,G>(); polys<typ::IsClosed,F,G>(); free_f<F,G>();
	CPolyline_<F> cp( mk<CPolyline_<G>>() );
	OPolyline_<F> os( mk<Segment_<F>>() ); OPolyline_<F> os2( mk<Segment_<G>>() );
	drawing<img::SvgImage,F>();
#ifdef HOMOG2D_USE_OPENCV
	drawing<cv::Mat,F>(); opencv<F>();
#endif
#ifdef HOMOG2D_USE_BOOSTGEOM
	boostg<F>();
#endif
#ifdef HOMOG2D_ENABLE_VRTP
	vrtp<F>();
#endif
}
}
