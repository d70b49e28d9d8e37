// Glue between the reference types and homog2d's public API (no internals are touched).
#pragma once
#include "ref.hpp"
#ifndef HOMOG2D_INUMTYPE
	#define HOMOG2D_INUMTYPE double
#endif
#include "homog2d.hpp"

using namespace h2d;
using ref::P; using ref::Poly;
typedef HOMOG2D_INUMTYPE NT;

inline Point2d mk( P p ) { return Point2d( (NT)p.x, (NT)p.y ); }
template<typename F> P rd( const Point2d_<F>& p ) { return P{ (LD)p.getX(), (LD)p.getY() }; }
inline std::vector<Point2d> mkv( const Poly& v ) { std::vector<Point2d> o; for( auto& p: v ) o.push_back( mk(p) ); return o; }
template<typename C> Poly rdv( const C& c ) { Poly o; for( auto& p: c ) o.push_back( rd(p) ); return o; }
inline void inP( mon::Case& c, const char* n, P p ) { c.in( n, p.x, p.y ); }
inline void inV( mon::Case& c, const char* n, const Poly& v ) { std::ostringstream o; o << std::setprecision(17) << n << "=["; for( auto& p: v ) o << p.x << "," << p.y << " "; o << "]; "; c.put(o.str()); }
template<typename T> std::string str( const T& t ) { std::ostringstream o; o << std::setprecision(17) << t; return o.str(); }
inline std::string str( P p ) { std::ostringstream o; o << std::setprecision(17) << "(" << p.x << "," << p.y << ")"; return o.str(); }
// reference distance of p to an h2d line from its public coefficients
template<typename F> LD dL( const Line2d_<F>& l, P p ) { auto a=l.get(); LD n=std::hypot((LD)a[0],(LD)a[1]); return std::fabs( a[0]*p.x+(LD)a[1]*p.y+a[2] )/n; }
// direction of an h2d line (unit), from its public coefficients
template<typename F> P dirL( const Line2d_<F>& l ) { auto a=l.get(); LD n=std::hypot((LD)a[0],(LD)a[1]); return P{ (LD)a[1]/n, -(LD)a[0]/n }; }
template<typename F> bool nearP( mon::Case& c, const std::string& key, const Point2d_<F>& got, P ex, LD tol )
{
	P g=rd(got);
	return c.chkf( key, ref::dist(g,ex)<=tol, [&](std::ostream&o){ o << "got " << g.x << "," << g.y << " expected " << ex.x << "," << ex.y << " tol " << tol; } );
}
struct QuietWarn { QuietWarn() { err::printWarnings()=false; std::cerr.rdbuf(nullptr); } };
static QuietWarn quietWarn_;
// ---- homographies ----
inline std::string str( const ref::M3& m ) { std::ostringstream o; o << std::setprecision(17); for( auto& r: m ) { for( auto v: r ) o << v << " "; o << "/ "; } return o.str(); }
template<typename H> ref::M3 rdM( const H& h ) { ref::M3 m; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) m[i][j]=h.value(i,j); return m; }
inline LD frob( const ref::M3& m ) { LD s=0; for( auto& r: m ) for( auto v: r ) s+=v*v; return sqrtl(s); }
// distance between two matrices seen as projective maps (unit Frobenius norm, aligned sign)
inline LD projDiff( const ref::M3& a, const ref::M3& b )
{
	LD na=frob(a),nb=frob(b),s=0,dp=0,dm=0; if( na==0||nb==0||!std::isfinite((double)na)||!std::isfinite((double)nb) ) return 1e9L; (void)s;
	for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) { LD x=a[i][j]/na,y=b[i][j]/nb; dp=std::max(dp,std::fabs(x-y)); dm=std::max(dm,std::fabs(x+y)); }
	return std::min(dp,dm);
}
inline LD condM( const ref::M3& m ) { LD d=ref::det(m); if( d==0 ) return 1e300L; return frob(m)*frob(ref::inv(m)); }
template<typename H> void setM( H& h, const ref::M3& m ) { for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) h.set( i,j,(NT)m[i][j] ); }
namespace gen {
inline ref::M3 rndH( mon::Rng& r, bool projective=true, double tr=50 )
{
	using namespace ref;
	M3 m=eye(); int n=(int)r.i(1,3);
	for( int k=0;k<n;k++ ) switch( r.i(0,2) )
	{
		case 0: m=mul( mR( r.coin(3)? (LD)r.i(-4,4)*PI/4 : (LD)r.d(-3.2,3.2) ), m ); break;
		case 1: m=mul( mT( r.d(-tr,tr), r.coin(4)?0.:r.d(-tr,tr) ), m ); break;
		default: { LD a=std::exp(r.d(-0.8,0.8)), b=r.coin(3)?a:std::exp(r.d(-0.8,0.8)); if( r.coin(6) ) a=-a; m=mul( mS(a,b), m ); }
	}
	if( projective && !r.coin(3) ) { M3 p=eye(); p[2][0]=r.d(-0.002,0.002); p[2][1]=r.d(-0.002,0.002); if( r.coin(3) ) { p[0][1]=r.d(-0.4,0.4); } m=mul(m,p); LD k=m[2][2]; for(auto&q:m) for(auto&v:q) v/=k; }
	for( auto&q:m ) for( auto&v:q ) v=(LD)(double)v;
	return m;
}
} // namespace gen
inline Homogr mkH( const ref::M3& m ) { std::vector<std::vector<NT>> v(3,std::vector<NT>(3)); for(int i=0;i<3;i++) for(int j=0;j<3;j++) v[i][j]=(NT)m[i][j]; return Homogr(v); }
