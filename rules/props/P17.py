"""compile-time contracts"""
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import ctx
RULE = ('Compile witnesses: for each numeric type combination, one translation unit states, for every documented operation, that the expression is well-formed and yields the documented kind of object (point, line, segment, ... with at least the precision of its operand; '
        'scalars in the internal numeric type); another one contains every meaningless operation of the frozen list, each of which the type checker must reject, whatever the numeric type (a rejection is matched to its expression through the instantiation chain). '
        'The complete instantiation driver (every public member) must type-check in every documented build configuration, with each function of the header defined once per program (inline or template, external linkage), no mutable namespace-scope variable, no using-directive at namespace scope, include guard effective.')
ASSUMPTIONS = ['clang 18 implements the language rules']
# expression => documented kind of result (F: numeric type of the object, N: HOMOG2D_INUMTYPE)
POS = """
kp.getX()  =>  N
kp * kp2  =>  L
kl * kl2  =>  P
kp.distTo( kl )  =>  N
kp.distTo( ks )  =>  N
kl.getPoint( GivenCoord::X, f )  =>  P
kl.getPoints( GivenCoord::X, f, f )  =>  std::pair<P, P>
kl.getPoints( kp, f )  =>  std::pair<P, P>
kl.getOrthogLine( kp )  =>  L
kl.getRotatedLine( kp, f )  =>  L
kl.getOrthogSegment( kp )  =>  O
kl.getParallelLine( kp )  =>  L
kl.getParallelLines( f )  =>  std::pair<L, L>
kl.getAngle( kl2 )  =>  N
kl.getAngle( ks )  =>  N
kl.intersects( kl2 ).get()  =>  P
kl.intersects( ks ).get()  =>  P
kl.intersects( kc ).get()  =>  std::pair<P, P>
kl.intersects( kr ).get()  =>  std::vector<P>
kl.intersects( kop ).get()  =>  std::vector<P>
ks.intersects( ks2 ).get()  =>  P
ks.intersects( kl ).get()  =>  P
ks.intersects( kc ).get()  =>  std::vector<P>
ks.intersects( kr ).get()  =>  std::vector<P>
ks.intersects( kcp ).get()  =>  std::vector<P>
kc.intersects( kc2 ).get()  =>  std::vector<P>
kc.intersects( kl ).get()  =>  std::pair<P, P>
kc.intersects( ks ).get()  =>  std::vector<P>
kc.intersects( kr ).get()  =>  std::vector<P>
kc.intersects( kop ).get()  =>  std::vector<P>
kr.intersects( kr2 ).get()  =>  std::vector<P>
kr.intersects( kl ).get()  =>  std::vector<P>
kr.intersects( kc ).get()  =>  std::vector<P>
kop.intersects( kop ).get()  =>  std::vector<P>
kcp.intersects( kr ).get()  =>  std::vector<P>
ks.getPts()  =>  std::pair<P, P>
ks.getLine()  =>  L
ks.getCenter()  =>  P
ks.getBisector()  =>  L
ks.getExtended()  =>  S
ks.getOrthogSegs()  =>  std::array<S, 4>
ks.getOrthogPts()  =>  std::array<P, 4>
ks.getParallelSegs( f )  =>  std::pair<S, S>
ks.split()  =>  std::pair<S, S>
ko.split()  =>  std::pair<O, O>
ko.split( f )  =>  std::pair<O, O>
ko.getVector()  =>  std::pair<N, N>
ko.getPointAt( f )  =>  P
-ko  =>  O
ks * ks2  =>  P
ko.getParallelSegs( f )  =>  std::pair<O, O>
ko.getOrthogSegs()  =>  std::array<S, 4>
kc.center()  =>  P
kc.radius()  =>  F
kc.getBB()  =>  R
kr.getBB()  =>  R
kr.getPts()  =>  std::pair<P, P>
kr.get4Pts()  =>  std::array<P, 4>
kr.getSegs()  =>  std::array<S, 4>
kr.getDiagonals()  =>  std::pair<S, S>
kr.getCenter()  =>  P
kr.width()  =>  N
kr.getExtended()  =>  R
kr.getBoundingCircle()  =>  C
kr.getInscribedCircle()  =>  C
kr.unionArea( kr2 )  =>  CP
kr | kr2  =>  CP
kr & kr2  =>  detail::RectArea<F>
kr.intersectArea( kr2 ).get()  =>  R
ke.getBB()  =>  R
ke.getOBB()  =>  CP
ke.getCenter()  =>  P
ke.getMajMin()  =>  std::pair<N, N>
ke.getAxisLines()  =>  std::pair<L, L>
ke.angle()  =>  N
kop.getBB()  =>  R
kop.getSegs()  =>  std::vector<S>
kop.getOSegs()  =>  std::vector<O>
kop.getPoint( 0 )  =>  P
kop.getSegment( 0 )  =>  S
kop.getOSegment( 0 )  =>  O
kcp.centroid()  =>  P
kcp.area()  =>  N
kcp.length()  =>  N
kcp.size()  =>  size_t
kcp.nbSegs()  =>  size_t
kcp.getOffsetPoly( 1. )  =>  CP
kcp.getLmPoint()  =>  P
kcp.getExtremePoint( CardDir::Left )  =>  P
kh * kp  =>  P
kh * kl  =>  L
kh * ks  =>  S
kh * ko  =>  O
kh * kop  =>  OP
kh * kcp  =>  CP
kh * kr  =>  CP
kh * kc  =>  E
kh * ke  =>  E
kh * kh2  =>  H
kh * vp  =>  std::vector<P>
kh.value( 0, 0 )  =>  F
convexHull( kcp )  =>  CP
convexHull( vp )  =>  CP
getBB( kp, kp2 )  =>  R
getBB( kr, kc )  =>  R
getBB( vp )  =>  R
getBB( vs )  =>  R
getBisectorLines( kcp )  =>  std::vector<L>
getCenters( vs )  =>  std::vector<P>
getLines( vs )  =>  std::vector<L>
getSegment( kc, kc2 )  =>  S
getLine( kc, kc2 )  =>  L
getTanSegs( kc, kc2 )  =>  std::pair<S, S>
getPtsInside( vp, r )  =>  std::vector<P>
getPtsInside( lp, r )  =>  std::list<P>
findNearestPoint( kp, vp )  =>  size_t
findNearestFarthestPoint( kp, vp )  =>  std::pair<size_t, size_t>
getLmPoint( vp )  =>  std::pair<P, long>
getClosestPoints( kop, kcp ).getPoints()  =>  std::pair<P, P>
translate( p, f, f )  =>  void
kp.size()  =>  size_t
kp.type()  =>  Type
kp.dtype()  =>  Dtype
kp.length()  =>  N
kp.area()  =>  N
"""
# operations on two numeric types
MIX = """
kp * pg  =>  L
kl * lg  =>  P
kp.distTo( pg )  =>  N
kp.distTo( lg )  =>  N
kl.distTo( pg )  =>  N
kl.intersects( lg ).get()  =>  P
kl.intersects( sg ).get()  =>  P
ks.intersects( lg ).get()  =>  P
ks.intersects( sg ).get()  =>  P
ks.intersects( cg ).get()  =>  std::vector<P>
kc.intersects( sg ).get()  =>  std::vector<P>
kc.intersects( cg ).get()  =>  std::vector<P>
kr.intersects( rg ).get()  =>  std::vector<P>
kr.intersects( cg ).get()  =>  std::vector<P>
kop.intersects( cpg ).get()  =>  std::vector<P>
kl.isParallelTo( lg )  =>  bool
kl.getAngle( lg )  =>  N
ks.getAngle( sg )  =>  N
kp.isInside( rg )  =>  bool
kp.isInside( cg )  =>  bool
kp.isInside( eg )  =>  bool
kp.isInside( cpg )  =>  bool
kp.isInside( pg, pg )  =>  bool
kc.isInside( cg )  =>  bool
kr.isInside( cg )  =>  bool
ks == sg  =>  bool
kr == rg  =>  bool
kc == cg  =>  bool
kcp == cpg  =>  bool
kcp != opg  =>  bool
P( pg )  =>  P
L( lg )  =>  L
S( sg )  =>  S
O( og )  =>  O
S( og )  =>  S
C( cg )  =>  C
R( rg )  =>  R
E( eg )  =>  E
E( cg )  =>  E
OP( opg )  =>  OP
CP( cpg )  =>  CP
CP( opg )  =>  CP
CP( rg )  =>  CP
OP( sg )  =>  OP
kr.unionArea( rg )  =>  CP
getTanSegs( kc, cg )  =>  std::pair<S, S>
getSegment( kc, cg )  =>  S
translate( r, 1, 2.5 )  =>  void
translate( cp, g, f )  =>  void
translate( p, 1, f )  =>  void
translate( s, f, 2 )  =>  void
translate( e, g, 1 )  =>  void
translate( c, std::pair<int, G>( 1, g ) )  =>  void
translate( op, std::pair<F, int>( f, 1 ) )  =>  void
moveTo( r, g, 2 )  =>  void
moveTo( c, f, g )  =>  void
moveTo( cp, 1, 2.5 )  =>  void
moveTo( s, pg )  =>  void
moveTo( r, pg )  =>  void
moveTo( c, pg )  =>  void
moveTo( op, pg )  =>  void
moveTo( p, pg )  =>  void
p.translate( 1, f )  =>  void
s.translate( g, 1 )  =>  void
o.translate( 1, g )  =>  void
c.translate( f, 1 )  =>  void
r.translate( f, g )  =>  void
e.translate( 1, g )  =>  void
cp.translate( 1, f )  =>  void
op.translate( g, 1 )  =>  void
cp.translate( std::pair<G, int>( g, 1 ) )  =>  void
p.translate( std::pair<G, int>( g, 1 ) )  =>  void
s.moveTo( 1, g )  =>  void
c.moveTo( f, 1 )  =>  void
r.moveTo( 1, g )  =>  void
e.moveTo( g, f )  =>  void
cp.moveTo( 1, f )  =>  void
c.moveTo( pg )  =>  void
r.moveTo( pg )  =>  void
e.moveTo( pg )  =>  void
op.moveTo( pg )  =>  void
s.moveTo( pg )  =>  void
rotate( cp, Rotate::CW, pg )  =>  void
rotate( r, Rotate::CCW, pg )  =>  void
r.rotate( Rotate::CW, pg )  =>  void
op.rotate( Rotate::CW, pg )  =>  void
p.set( 1, g )  =>  void
l.set( 1, g, f )  =>  void
P( 1, g )  =>  P
P( f, 1, g )  =>  P
L( 1, g )  =>  L
L( 1, g, f )  =>  L
L( 1, f, g, 2 )  =>  L
L( pg )  =>  L
L( LineDir::H, g )  =>  L
L( LineDir::V, pg )  =>  L
S( pg, pg )  =>  S
S( 1, f, g, 2 )  =>  S
O( 1, f, g, 2 )  =>  O
O( pg, pg )  =>  O
s.set( pg, pg )  =>  void
s.set( 1, f, g, 2 )  =>  void
C( pg, 1 )  =>  C
C( pg )  =>  C
C( pg, f )  =>  C
C( kp, pg )  =>  C
C( pg, kp )  =>  C
C( kp, pg, kp2 )  =>  C
c.set( pg )  =>  void
c.set( pg, 1 )  =>  void
c.set( kp, pg )  =>  void
c.set( pg, kp, kp2 )  =>  void
R( pg, pg )  =>  R
R( pg, 1, f )  =>  R
R( 1, g, f, 2 )  =>  R
R( std::make_pair( pg, pg ) )  =>  R
r.set( kp, pg )  =>  void
r.set( pg, kp )  =>  void
cp.set( rg )  =>  void
cp.set( f, 5 )  =>  std::pair<N, N>
cp.set( g, 5u )  =>  std::pair<N, N>
CP( g, 5 )  =>  CP
cp.setParallelogram( pg, kp, kp2 )  =>  void
cp.setParallelogram( kp, pg, pg )  =>  void
OP( std::vector<Point2d_<G>>() )  =>  OP
cp.set( std::vector<Point2d_<G>>() )  =>  void
h.setTranslation( 1, g )  =>  H
h.setScale( f, 1 )  =>  H
h.addScale( 1, g )  =>  H
h.addTranslation( g, g )  =>  H
h.setRotation( g )  =>  H
h.addRotation( 1 )  =>  H
h * pg  =>  Point2d_<G>
h * lg  =>  Line2d_<G>
h * sg  =>  S
h * og  =>  O
h * cpg  =>  CPolyline_<G>
h * opg  =>  OPolyline_<G>
h * cg  =>  Ellipse_<G>
h * eg  =>  Ellipse_<G>
h * rg  =>  CPolyline_<G>
h * std::vector<Point2d_<G>>()  =>  std::vector<Point2d_<G>>
dist( kp, pg )  =>  N
side( kp, lg )  =>  int
IoU( kr, rg )  =>  N
unionArea( kr, rg )  =>  CP
intersectArea( kr, rg )  =>  detail::RectArea<F>
kr & rg  =>  detail::RectArea<F>
kr | rg  =>  CP
getBB( kr, rg )  =>  auto
getBB( kc, rg )  =>  auto
getBB( ks, cpg )  =>  auto
getBB( ke, pg )  =>  auto
getClosestPoints( kcp, opg )  =>  auto
getLine( kc, cg )  =>  L
getAngle( kl, sg )  =>  N
getAngle( ks, og )  =>  N
split( ko, g )  =>  std::pair<O, O>
split( ko, 1 )  =>  std::pair<O, O>
ko.split( 1 )  =>  std::pair<O, O>
ko.getPointAt( g )  =>  P
getParallelSegs( ks, g )  =>  std::pair<S, S>
ks.getParallelSegs( 1 )  =>  std::pair<S, S>
ko.getParallelSegs( g )  =>  std::pair<O, O>
getParallelLines( kl, g )  =>  std::pair<L, L>
kl.getParallelLines( 1 )  =>  std::pair<L, L>
kl.getParallelLine( pg )  =>  L
kl.getOrthogLine( pg )  =>  L
kl.getOrthogLine( GivenCoord::X, g )  =>  L
kl.getOrthogSegment( pg )  =>  O
kl.getRotatedLine( pg, 1 )  =>  L
kl.getRotatedLine( kp, g )  =>  L
kl.getCoord( GivenCoord::X, g )  =>  N
kl.getPoint( GivenCoord::X, 1 )  =>  P
kl.getPoints( GivenCoord::X, 1, g )  =>  std::pair<P, P>
kl.getPoints( pg, 1 )  =>  std::pair<P, P>
kp == pg  =>  bool
kp != pg  =>  bool
kl == lg  =>  bool
ko == og  =>  bool
kop == opg  =>  bool
kr != rg  =>  bool
kc != cg  =>  bool
ks != sg  =>  bool
p = pg  =>  auto
l = lg  =>  auto
s = sg  =>  auto
o = og  =>  auto
c = cg  =>  auto
r = rg  =>  auto
e = eg  =>  auto
cp = cpg  =>  auto
cp = opg  =>  auto
cp = rg  =>  auto
op = opg  =>  auto
ks.isInside( rg )  =>  bool
ks.isInside( cg )  =>  bool
ks.isInside( eg )  =>  bool
ks.isInside( cpg )  =>  bool
kr.isInside( rg )  =>  bool
kr.isInside( cpg )  =>  bool
kr.isInside( eg )  =>  bool
kc.isInside( rg )  =>  bool
kc.isInside( cpg )  =>  bool
kc.isInside( pg, pg )  =>  bool
kcp.isInside( rg )  =>  bool
kcp.isInside( cg )  =>  bool
kcp.isInside( cpg )  =>  bool
kop.isInside( cpg )  =>  bool
kop.isInside( eg )  =>  bool
kr.intersects( sg ).get()  =>  std::vector<P>
kr.intersects( lg ).get()  =>  std::vector<P>
kr.intersects( cpg ).get()  =>  std::vector<P>
kc.intersects( rg ).get()  =>  std::vector<P>
kc.intersects( opg ).get()  =>  std::vector<P>
kc.intersects( lg ).get()  =>  std::pair<P, P>
kl.intersects( cg ).get()  =>  std::pair<P, P>
kl.intersects( rg ).get()  =>  std::vector<P>
kl.intersects( cpg ).get()  =>  std::vector<P>
ks.intersects( rg ).get()  =>  std::vector<P>
ks.intersects( opg ).get()  =>  std::vector<P>
ko.intersects( sg ).get()  =>  P
kcp.intersects( sg ).get()  =>  std::vector<P>
kcp.intersects( lg ).get()  =>  std::vector<P>
kcp.intersects( cg ).get()  =>  std::vector<P>
kcp.intersects( rg ).get()  =>  std::vector<P>
kl.isParallelTo( sg )  =>  bool
ks.distTo( pg )  =>  N
ko.getPointSide( pg )  =>  auto
kp.distTo( sg )  =>  N
findNearestPoint( kp, std::vector<Point2d_<G>>() )  =>  size_t
findFarthestPoint( kp, std::vector<Point2d_<G>>() )  =>  size_t
getPtsInside( vp, cg )  =>  std::vector<P>
getPtsInside( vp, rg )  =>  std::vector<P>
getPtsInside( vp, eg )  =>  std::vector<P>
getPtsInside( vp, cpg )  =>  std::vector<P>
ks * sg  =>  P
im.setSize( std::pair<int, int>( 3, 4 ) )  =>  void
E( pg, 1, 2, f )  =>  E
E( f, f, g, g, 1 )  =>  E
P( L(), L() )  =>  P
L( pg, pg )  =>  L
P( lg, lg )  =>  P
"""
# operations that have no meaning and must be refused
NEG = """
p.getOrthogLine( GivenCoord::X, f )
p.getOrthogLine( p2 )
p.getOrthogLine( pg )
p.getParallelLine( p2 )
p.getParallelLines( f )
p.getRotatedLine( p2, f )
p.getOrthogSegment( p2 )
p.getCoord( GivenCoord::X, f )
p.getPoint( GivenCoord::X, f )
p.getPoints( GivenCoord::X, f, f )
p.getPoints( p2, f )
p.isParallelTo( l )
p.isParallelTo( lg )
p.isParallelTo( s )
p.isParallelTo( o )
p.isParallelTo( p2 )
l.isParallelTo( p )
s.isParallelTo( p )
p.getAngle( l )
p.getAngle( s )
p.getAngle( o )
p.getAngle( p2 )
s.getAngle( p )
o.getAngle( p )
getAngle( p, l )
getAngle( l, p )
areParallel( p, l )
areParallel( s, p )
p.intersects( l )
p.intersects( s )
p.intersects( o )
p.intersects( c )
p.intersects( r )
p.intersects( op )
p.intersects( cp )
l.intersects( p )
s.intersects( p )
c.intersects( p )
r.intersects( p )
op.intersects( p )
cp.intersects( p )
P( f, f, f, f )
P( LineDir::H, f )
P( LineDir::V, p )
P( l )
P( s )
P( c )
L( s )
l.getX()
l.getY()
getX( l )
getY( l )
l.moveTo( p )
l.moveTo( f, f )
moveTo( l, p )
l.distTo( l2 )
l.distTo( lg )
l.distTo( s )
s.distTo( l )
dist( l, l2 )
l < l2
l < lg
c < c2
r < r2
cp < cp
h < h
s.getVector()
s.split( f )
split( s, f )
s.getPointAt( f )
s.getPointSide( p )
-s
O( s )
O( sg )
o = s
S( p )
S( b, 3 )
S( b, b, b, b )
OP( cp )
OP( cpg )
OP( r )
OP( rg )
op = cp
op = r
op.set( r )
op.set( rg )
op.set( cp )
OP( f, 5 )
OP( f )
CP( f )
CP( f, f )
CP( f, 3.5 )
op.set( f, 5 )
cp.set( f, f )
op.setParallelogram( p, p, p )
OP( p )
CP( p )
CP( c )
CP( l )
H( p )
H( p, p2 )
H( l )
r = h * r
c = h * c
R( h * r )
C( h * c )
H( h * p )
h * 3
h * std::string()
getPtsInside( vp, op )
getPtsInside( vp, l )
getPtsInside( vp, p )
getPtsInside( vp, s )
getPtsInside( vp, o )
getPtsInside( ap, r )
getPtsInside( ap, c )
getBB( l, r )
getBB( r, l )
getBB( l, l2 )
getBB( l, p )
getBB( l, s )
getBB( c, l )
getBB( cp, l )
p.translate( c, 3 )
l.translate( c, 3 )
s.translate( c, 3 )
c.translate( c, 3 )
r.translate( c, 3 )
e.translate( c, 3 )
cp.translate( c, 3 )
cp.translate( b, b )
p.translate( b, b )
c.set( b )
P( b, b )
p.set( b, b )
E( b, b )
R( b, b, b, b )
l.getRotatedLine( p, b )
h.setRotation( b )
h.addRotation( p )
h.setTranslation( p, p )
h.setScale( b )
h.addScale( b, b )
h.setRotation( "1" )
rotate( l, Rotate::CW )
rotate( c, Rotate::CW )
s.rotate( Rotate::CW )
l.getPts()
p.getPts()
c.getPts()
l.getSegs()
p.getLine()
centroid( s )
centroid( r )
convexHull( s )
convexHull( c )
convexHull( l )
getTanSegs( c, p )
getTanSegs( p, c )
getTanSegs( l, c )
getParallelDistance( p, p2 )
getParallelDistance( l, p )
getParallelDistance( s, s2 )
unionArea( r, c )
unionArea( c, c2 )
intersectArea( r, c )
r & c
r | c
c | c2
IoU( c, c2 )
buildFrom4Points( p, p2 )
draw( im, h )
im.draw( h )
h.draw( im )
c == s
s == l
r == e
h == e
h == p
e == h
p * h
l * h
cp * h
p * s
s * p
c * c2
C( p, p, p, p )
R( p, p, p )
R( l, l2 )
E( c, c2 )
radius( s )
center( s )
center( r )
getCenter( l )
getCenter( p )
getCenter( cp )
side( l, l2 )
side( p, p2 )
areCollinear( p, p2, l )
findNearestPoint( l, vp )
findNearestPoint( p, vs )
getLmPoint( vs )
getBisector( l )
width( s )
height( c )
getExtended( o )
"""
NEG_PLAIN = """
getBB( l )
getBB( p )
getBB( s )
getBB( o )
l.getBB()
s.getBB()
p.getBB()
"""
DECL = [('Point2d', 'P', 'p p2'), ('Line2d', 'L', 'l l2'), ('Segment', 'S', 's s2'), ('OSegment', 'O', 'o o2'), ('Circle', 'C', 'c c2'), ('FRect', 'R', 'r r2'), ('Ellipse', 'E', 'e e2'), ('OPolyline', 'OP', 'op op2'), ('CPolyline', 'CP', 'cp cp2'), ('Homogr', 'H', 'h h2')]
HEAD = '''#include "homog2d.hpp"
#include "homog2d.hpp"
#include <list>
using namespace h2d;
template<class T> T& mk();
typedef HOMOG2D_INUMTYPE N;
// K<Actual,Expected,F>: same kind of object, numeric type at least as precise as F
template<class A,class B> struct K : std::is_same<A,B> {};
#define KIND1( T ) template<class A,class B> struct K<T<A>,T<B>> : std::bool_constant<sizeof(A)>=sizeof(B)> {};
#define KIND2( T ) template<class X,class A,class B> struct K<T<X,A>,T<X,B>> : std::bool_constant<sizeof(A)>=sizeof(B)> {};
KIND2( base::LPBase ) KIND2( base::SegVec ) KIND2( base::PolylineBase ) KIND2( Hmatrix_ ) KIND1( Circle_ ) KIND1( FRect_ ) KIND1( Ellipse_ ) KIND1( detail::RectArea )
template<class A,class B,class C,class D> struct K<std::pair<A,B>,std::pair<C,D>> : std::bool_constant<K<A,C>::value && K<B,D>::value> {};
template<class A,class B> struct K<std::vector<A>,std::vector<B>> : K<A,B> {};
template<class A,class B> struct K<std::list<A>,std::list<B>> : K<A,B> {};
template<class A,class B,size_t n> struct K<std::array<A,n>,std::array<B,n>> : K<A,B> {};
'''

def tu(exprs, F, G):
    out = HEAD.rstrip('\n').split('\n'); m = {}
    for k, (e, ty) in enumerate(exprs):
        d = 'typedef %s F; typedef %s G; F f=1; G g=1; bool b=true; ' % (F, G)
        for t, a, vs in DECL:
            d += 'typedef %s_<F> %s; typedef %s_<G> %sg; ' % (t, a, t, a)
            for v in vs.split(): d += 'auto& %s = mk<%s>(); const auto& k%s = %s; ' % (v, a, v, v)
            d += 'auto& %sg = mk<%sg>(); ' % (vs.split()[0], a)
        d += 'auto& vp = mk<std::vector<P>>(); auto& ap = mk<std::array<P,4>>(); auto& lp = mk<std::list<P>>(); auto& vs = mk<std::vector<S>>(); auto& im = mk<img::Image<img::SvgImage>>(); '
        if ty is None: x = 'auto&& x = ( %s ); (void)x;' % e
        elif ty == 'void': x = '%s;' % e
        else: x = 'auto&& x = ( %s ); static_assert( K<std::decay_t<decltype(x)>,%s>::value, "kind of result" );' % (e, ty)
        out.append('void w%d() { %s %s }' % (k, d, x)); m[len(out)] = k
    return '\n'.join(out) + '\n', m

def compile_(cx, exprs, F, G, flags, name):
    """index -> (message, library line) of the witnesses the type checker rejects"""
    t, m = tu(exprs, F, G); fn = os.path.join(cx.tmp, name + '.cpp')
    open(fn, 'w').write(t)
    r = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0', '-I' + ctx.REPO] + flags + [fn], capture_output=True, text=True)
    hit = {}; msg = None; other = []
    for l in r.stderr.split('\n'):
        mm = re.match(r'(\S+?):(\d+):\d+: (\w+(?: error)?): (.*)', l)
        if not mm: continue
        if mm.group(3) in ('error', 'fatal error'):
            msg = '%s (%s:%s)' % (mm.group(4)[:200], os.path.basename(mm.group(1)), mm.group(2)); own = False
            if 'fatal' in mm.group(3) : other.append(msg)
        if mm.group(1) == fn and int(mm.group(2)) in m and msg and (mm.group(3) != 'note' or 'requested here' in mm.group(4)): hit.setdefault(m[int(mm.group(2))], msg)
    os.unlink(fn)
    if r.returncode not in (0, 1): raise ctx.ToolError('clang++ failed: ' + r.stderr[-500:])
    return hit, r

def table(s): return [(e.strip(), None if t.strip() == 'auto' else t.strip()) for e, t in (l.split('  =>  ') for l in s.strip().split('\n'))]

def run(cx):
    pos = table(POS) + table(MIX); neg = [(l.strip(), None) for l in NEG.strip().split('\n')]; negp = [(l.strip(), None) for l in NEG_PLAIN.strip().split('\n')]
    cx.need(len(pos), 100, 'positive witnesses'); cx.need(len(neg), 100, 'negative witnesses')
    combos = [('float', 'double', []), ('double', 'float', ['-DHOMOG2D_ENABLE_VRTP']), ('long double', 'double', ['-DHOMOG2D_INUMTYPE=long double', '-DHOMOG2D_ENABLE_VRTP'])]
    if cx.tier != 'quick':
        combos += [('float', 'float', ['-DHOMOG2D_OPTIMIZE_SPEED']), ('double', 'long double', ['-DHOMOG2D_INUMTYPE=long double']), ('float', 'long double', []), ('double', 'double', ['-DHOMOG2D_NOCHECKS', '-DHOMOG2D_NOWARNINGS']), ('float', 'double', ['-DHOMOG2D_USE_EIGEN', '-I/usr/include/eigen3']),
                   ('double', 'float', ['-DHOMOG2D_USE_SVG_IMPORT']), ('double', 'float', ['-std=c++20', '-DHOMOG2D_ENABLE_PRTP'])]
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for k, (F, G, fl) in enumerate(combos):
            jobs.append(('pos', F, G, fl, pos, ex.submit(compile_, cx, pos, F, G, fl, 'p%d' % k)))
            jobs.append(('neg', F, G, fl, neg, ex.submit(compile_, cx, neg, F, G, fl, 'n%d' % k)))
            if not any('RTP' in x or 'SVG_IMPORT' in x for x in fl): jobs.append(('neg', F, G, fl, negp, ex.submit(compile_, cx, negp, F, G, fl, 'q%d' % k)))
        miss = []
        for kind, F, G, fl, tab, j in jobs:
            hit, r = j.result()
            w = '%s/%s %s' % (F, G, ' '.join(x for x in fl if x.startswith('-D')))
            for k, (e, ty) in enumerate(tab):
                if kind == 'pos':
                    cx.check(k not in hit, '%s|%s' % (e, 'kind' if k in hit and 'kind of result' in hit[k] else 'rejected'), lambda: 'documented operation `%s` (expected result: %s; numeric types %s): %s' % (e, ty, w, hit[k]), '`%s` is a %s' % (e, ty))
                elif k in hit: cx.good('`%s` is rejected: %s' % (e, hit[k][:90]))
                else: miss.append((F, G, fl, e, w))
        # an instantiation is diagnosed once per translation unit: ask again alone
        again = [(x, ex.submit(compile_, cx, [(x[3], None)], x[0], x[1], x[2], 'a%d' % k)) for k, x in enumerate(miss)]
        for (F, G, fl, e, w), j in again:
            hit, r = j.result()
            cx.check(0 in hit, '%s|accepted' % e, 'meaningless operation `%s` (numeric types %s) is accepted by the compiler' % (e, w), '`%s` is rejected' % e)
    cx.cov['witness_units'] = len(jobs) + len(miss)
    # definitions
    for F in cx.extract(*(('svg', 'plain') if cx.tier == 'quick' else ('svg', 'plain', 'debug', 'opencv', 'eigen', 'boost', 'prtp', 'float', 'ldld', 'nocheck', 'nowarn', 'speed')), allow_errors=True):
        cx.check(not F.errors, 'config|' + F.config, 'the header does not compile in configuration %s (%s): %s' % (F.config, ' '.join(ctx.CONFIGS[F.config]), F.diag[:600]), 'configuration %s type-checks' % F.config)
        if F.errors: continue
        for f in F.fns:
            if not f.d.get('inhdr'): continue
            cx.check(f.d['inl'] or f.d['tmpl'] or f.d['lk'] != 6, '%s|inline' % f.q, '%s (homog2d.hpp:%d, config %s) is neither inline nor a template: a program including the header twice will not link' % (f.sig(), f.line, F.config), None)
            if f.q.startswith(('h2d::thr::', 'h2d::err::')):
                cx.check(f.d['lk'] == 6, '%s|linkage' % f.q, '%s (homog2d.hpp:%d) has internal linkage: each source file has its own copy of the setting' % (f.sig(), f.line), '%s: one copy for the whole program' % f.q)
        for s in F.statics:
            cx.check(s['local'] or s['inl'] or s['const'], 'variable|' + s['q'], 'homog2d.hpp:%d (config %s): namespace-scope variable %s would be defined in each source file' % (s['line'], F.config, s['q']), None)
