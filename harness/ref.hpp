// Independent reference geometry (never calls homog2d). long double, or exact integers.
#pragma once
#include "mon.hpp"
#include <array>

namespace ref {

struct P { LD x=0,y=0; };
inline P operator+( P a, P b ) { return {a.x+b.x,a.y+b.y}; }
inline P operator-( P a, P b ) { return {a.x-b.x,a.y-b.y}; }
inline P operator*( LD k, P a ) { return {k*a.x,k*a.y}; }
inline bool operator==( P a, P b ) { return a.x==b.x && a.y==b.y; }
inline bool operator<( P a, P b ) { return a.x!=b.x ? a.x<b.x : a.y<b.y; }
inline LD dot( P a, P b ) { return a.x*b.x+a.y*b.y; }
inline LD crs( P a, P b ) { return a.x*b.y-a.y*b.x; }
inline LD crs( P a, P b, P c ) { return crs( b-a, c-a ); }
inline LD norm( P a ) { return std::hypot( a.x, a.y ); }
inline LD dist( P a, P b ) { return norm( a-b ); }
const LD PI = 3.14159265358979323846264338327950288L;

// distance from p to infinite line (a,b)
inline LD dLine( P p, P a, P b ) { return std::fabs( crs(a,b,p) )/dist(a,b); }
inline P proj( P p, P a, P b ) { P d=b-a; LD t=dot(p-a,d)/dot(d,d); return a+t*d; }
inline LD projT( P p, P a, P b ) { P d=b-a; return dot(p-a,d)/dot(d,d); }
inline LD dSeg( P p, P a, P b ) { LD t=projT(p,a,b); if(t<=0) return dist(p,a); if(t>=1) return dist(p,b); return dLine(p,a,b); }
inline P rot( P p, LD a ) { return { p.x*cosl(a)-p.y*sinl(a), p.x*sinl(a)+p.y*cosl(a) }; }
inline P mid( P a, P b ) { return {(a.x+b.x)/2,(a.y+b.y)/2}; }

typedef std::vector<P> Poly;
inline LD area2( const Poly& v ) { LD s=0; for( size_t i=0;i<v.size();i++ ) s+=crs( v[i], v[(i+1)%v.size()] ); return s; }
inline LD perim( const Poly& v, bool closed ) { LD s=0; for( size_t i=0;i+1<v.size();i++ ) s+=dist(v[i],v[i+1]); if( closed && v.size()>1 ) s+=dist(v.back(),v[0]); return s; }
inline P centroid( const Poly& v )
{
	P o=v[0]; LD a=0,cx=0,cy=0;
	for( size_t i=0;i<v.size();i++ ) { P p=v[i]-o,q=v[(i+1)%v.size()]-o; LD k=crs(p,q); a+=k; cx+=(p.x+q.x)*k; cy+=(p.y+q.y)*k; }
	return { o.x+cx/(3*a), o.y+cy/(3*a) };
}
inline LD dPoly( P p, const Poly& v, bool closed=true ) { LD m=1e300L; size_t n=v.size(); for( size_t i=0;i+(closed?0:1)<n;i++ ) m=std::min(m,dSeg(p,v[i],v[(i+1)%n])); return m; }
// crossing number; only for points not on the boundary
inline bool inPoly( P p, const Poly& v )
{
	bool in=false; size_t n=v.size();
	for( size_t i=0,j=n-1;i<n;j=i++ )
		if( (v[i].y>p.y)!=(v[j].y>p.y) )
		{
			LD xx = v[i].x + (p.y-v[i].y)*(v[j].x-v[i].x)/(v[j].y-v[i].y);
			if( p.x<xx ) in=!in;
		}
	return in;
}
inline int sgn( LD v ) { return v>0?1:(v<0?-1:0); }
// do closed segments share a point (exact on integers / dyadics)
inline bool onSeg( P p, P a, P b ) { return crs(a,b,p)==0 && std::min(a.x,b.x)<=p.x && p.x<=std::max(a.x,b.x) && std::min(a.y,b.y)<=p.y && p.y<=std::max(a.y,b.y); }
inline bool segsTouch( P a, P b, P c, P d )
{
	int s1=sgn(crs(a,b,c)), s2=sgn(crs(a,b,d)), s3=sgn(crs(c,d,a)), s4=sgn(crs(c,d,b));
	if( s1*s2<0 && s3*s4<0 ) return true;
	return onSeg(c,a,b)||onSeg(d,a,b)||onSeg(a,c,d)||onSeg(b,c,d);
}
// exact simple polygon test on exactly representable coordinates
inline bool simple( const Poly& v )
{
	size_t n=v.size(); if( n<3 ) return false;
	for( size_t i=0;i<n;i++ ) for( size_t j=i+1;j<n;j++ )
	{
		P a=v[i],b=v[(i+1)%n],c=v[j],d=v[(j+1)%n];
		if( j==i+1 || (i==0 && j==n-1) )
		{
			// adjacent: they share one vertex, must not overlap
			P sh = (j==i+1)? b : a; P o1=(j==i+1)? a : b, o2=(j==i+1)? d : c;
			if( crs(sh,o1,o2)==0 && dot(o1-sh,o2-sh)>0 ) return false;
		}
		else if( segsTouch(a,b,c,d) ) return false;
	}
	return true;
}
// smallest distance between non-adjacent edges, plus smallest edge: conditioning of a simple polygon
inline LD clearance( const Poly& v )
{
	size_t n=v.size(); LD m=1e300L;
	for( size_t i=0;i<n;i++ ) { m=std::min(m,dist(v[i],v[(i+1)%n])); for( size_t j=0;j<n;j++ ) if( j!=i && j!=(i+1)%n ) m=std::min( m, dSeg(v[j],v[i],v[(i+1)%n]) ); }
	return m;
}
// convex hull (Andrew), strict (no collinear vertices), ccw. Exact on integers.
inline Poly hull( Poly v )
{
	std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() );
	if( v.size()<3 ) return v;
	Poly h( 2*v.size() ); size_t k=0;
	for( size_t i=0;i<v.size();i++ ) { while( k>=2 && crs(h[k-2],h[k-1],v[i])<=0 ) k--; h[k++]=v[i]; }
	for( size_t i=v.size()-1,t=k+1;i>0;i-- ) { while( k>=t && crs(h[k-2],h[k-1],v[i-1])<=0 ) k--; h[k++]=v[i-1]; }
	h.resize(k-1); return h;
}
// 3x3 matrices
typedef std::array<std::array<LD,3>,3> M3;
inline M3 eye() { M3 m{}; for(int i=0;i<3;i++) m[i][i]=1; return m; }
inline M3 mul( const M3& a, const M3& b ) { M3 m{}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int k=0;k<3;k++) m[i][j]+=a[i][k]*b[k][j]; return m; }
inline M3 transp( const M3& a ) { M3 m{}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m[i][j]=a[j][i]; return m; }
inline LD det( const M3& m ) { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
inline M3 inv( const M3& m )
{
	LD d=det(m); M3 r;
	for(int i=0;i<3;i++) for(int j=0;j<3;j++) { int a=(j+1)%3,b=(j+2)%3,p=(i+1)%3,q=(i+2)%3; r[i][j]=(m[a][p]*m[b][q]-m[a][q]*m[b][p])/d; }
	return r;
}
inline M3 mT( LD x, LD y ) { M3 m=eye(); m[0][2]=x; m[1][2]=y; return m; }
inline M3 mR( LD a ) { M3 m=eye(); m[0][0]=m[1][1]=cosl(a); m[1][0]=sinl(a); m[0][1]=-sinl(a); return m; }
inline M3 mS( LD x, LD y ) { M3 m=eye(); m[0][0]=x; m[1][1]=y; return m; }
inline P ap( const M3& m, P p ) { LD w=m[2][0]*p.x+m[2][1]*p.y+m[2][2]; return { (m[0][0]*p.x+m[0][1]*p.y+m[0][2])/w, (m[1][0]*p.x+m[1][1]*p.y+m[1][2])/w }; }
inline LD apw( const M3& m, P p ) { return m[2][0]*p.x+m[2][1]*p.y+m[2][2]; }

// minimum enclosing circle by brute force
struct Cir { P c; LD r=0; };
inline bool circum( P a, P b, P c, Cir& o )
{
	LD d=2*crs(a,b,c); if( d==0 ) return false;
	P u=b-a,v=c-a; LD uu=dot(u,u),vv=dot(v,v);
	P k{ (v.y*uu-u.y*vv)/d, (u.x*vv-v.x*uu)/d };
	o.c=a+k; o.r=norm(k); return true;
}
inline Cir mec( const Poly& v )
{
	Cir best; best.r=1e300L; size_t n=v.size();
	auto all=[&]( const Cir& c ) { for( auto& p: v ) if( dist(p,c.c) > c.r*(1+1e-15L)+1e-15L ) return false; return true; };
	for( size_t i=0;i<n;i++ ) for( size_t j=i+1;j<n;j++ ) { Cir c{ mid(v[i],v[j]), dist(v[i],v[j])/2 }; if( c.r<best.r && all(c) ) best=c; }
	for( size_t i=0;i<n;i++ ) for( size_t j=i+1;j<n;j++ ) for( size_t k=j+1;k<n;k++ ) { Cir c; if( circum(v[i],v[j],v[k],c) && c.r<best.r && all(c) ) best=c; }
	return best;
}

} // namespace ref

// ---- generators ----
namespace gen {
using ref::P;
// a coordinate: mixture of small ints, ints, quarter-dyadics and reals
inline double co( mon::Rng& r, double range=100 )
{
	switch( r.i(0,4) )
	{
		case 0: return (double)r.i(-5,5);
		case 1: return (double)r.i(-(int)range,(int)range);
		case 2: return (double)r.i(-(int)range*4,(int)range*4)/4.;
		default: return r.d(-range,range);
	}
}
inline P pt( mon::Rng& r, double range=100 ) { return { co(r,range), co(r,range) }; }
inline P ipt( mon::Rng& r, int range ) { return { (LD)r.i(-range,range), (LD)r.i(-range,range) }; }
// point at distance at least dmin from q
inline P ptFar( mon::Rng& r, P q, double dmin, double range=100 ) { for(;;) { P p=pt(r,range); if( r.coin(5) ) p.x=q.x; else if( r.coin(5) ) p.y=q.y; if( ref::dist(p,q)>=dmin ) return p; } }
// a number of elements: usually in [lo,hi], sometimes large, exceptionally over 256
inline int num( mon::Rng& r, int lo, int hi, int big=40, int huge=300 ) { int k=(int)r.i(0,199); return k<6&&big>hi?(int)r.i(hi,big):k==6&&huge>257?(int)r.i(257,huge):(int)r.i(lo,hi); }
// lattice polygon having many points, monotone along an axis
inline ref::Poly monoPoly( mon::Rng& r, int n, int range )
{
	ref::Poly v; int m=n/2, k=n-m; bool t=r.coin(2);
	for( int i=0;i<m;i++ ) v.push_back( P{(LD)(i-m/2),(LD)r.i(1,std::max(2,range))} );
	for( int i=0;i<k;i++ ) v.push_back( P{(LD)(k-1-i-m/2),(LD)-r.i(1,std::max(2,range))} );
	if( t ) for( auto& p: v ) std::swap(p.x,p.y);
	return v;
}
// random simple polygon on an integer lattice: random points, 2-opt untangling; exact check
inline ref::Poly simplePoly( mon::Rng& r, int n, int range )
{
	if( n>24 ) return monoPoly(r,n,range);
	for(;;)
	{
		ref::Poly v;
		while( (int)v.size()<n ) { P p=ipt(r,range); bool dup=false; for( auto&q: v ) if( q==p ) dup=true; if(!dup) v.push_back(p); }
		for( int it=0; it<200; it++ )
		{
			bool ch=false;
			for( int i=0;i<n && !ch;i++ ) for( int j=i+2;j<n && !ch;j++ )
			{
				if( i==0 && j==n-1 ) continue;
				if( ref::segsTouch( v[i], v[i+1], v[j], v[(j+1)%n] ) ) { std::reverse( v.begin()+i+1, v.begin()+j+1 ); ch=true; }
			}
			if( !ch ) break;
		}
		if( ref::simple(v) ) return v;
	}
}
// star-shaped polygon (real coords), n vertices
inline ref::Poly starPoly( mon::Rng& r, int n, P c, double rmin, double rmax )
{
	ref::Poly v; LD a0=r.d(0,6.28);
	for( int i=0;i<n;i++ ) { LD a=a0+2*ref::PI*(i+r.d(-0.3,0.3))/n; LD d=r.d(rmin,rmax); LD x=(double)(c.x+d*cosl(a)), y=(double)(c.y+d*sinl(a)); v.push_back( {x,y} ); }
	return v;
}
inline ref::Poly convexPoly( mon::Rng& r, int n, P c, double rad )
{
	ref::Poly v; std::vector<LD> as; for( int i=0;i<n;i++ ) as.push_back( 2*ref::PI*(i+r.d(-0.35,0.35))/n );
	LD ph=r.d(0,6.28), rx=rad, ry=rad*r.d(0.5,1);
	for( auto a: as ) { LD x=(double)(c.x+rx*cosl(a+ph)), y=(double)(c.y+ry*sinl(a+ph)); v.push_back( {x,y} ); }
	return v;
}
} // namespace gen
