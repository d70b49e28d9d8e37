#include "h2.hpp"
#include <list>
#include <array>
using namespace gen;

static bool cyc( const Poly& a, const Poly& b ) { size_t n=a.size(); if( b.size()!=n ) return false; for( int d: {1,-1} ) for( size_t s=0;s<n;s++ ) { bool ok=true; for( size_t i=0;ok&&i<n;i++ ) ok=a[i]==b[(s+(d>0?i:n-i))%n]; if( ok ) return true; } return n==0; }
static Poly cloud( mon::Case& c, bool lat )
{
	Poly v; int n=(int)c.rng.i(3,c.rng.coin(100)?300:c.rng.coin(4)?60:14), R=(int)c.rng.i(1,12);
	switch( c.rng.i(0,7) )
	{
		case 0: for( int i=0;i<n;i++ ) v.push_back(ipt(c.rng,R)); break;
		case 1: { Poly f; for( int i=0;i<4;i++ ) f.push_back(ipt(c.rng,R)); for( int i=0;i<n;i++ ) v.push_back(c.rng.pick(f)); break; } // many duplicates
		case 2: { P a=ipt(c.rng,R),d=ipt(c.rng,2); for( int i=0;i<n;i++ ) v.push_back(a+(LD)c.rng.i(-6,6)*d); for( int i=0;i<(int)c.rng.i(1,3);i++ ) v.push_back(ipt(c.rng,R)); break; } // one line plus a few
		case 3: { for( int i=0;i<n;i++ ) { LD x=c.rng.i(0,R), y=c.rng.coin()?0:R; if( c.rng.coin() ) std::swap(x,y); v.push_back({x,y}); } break; } // border of a square
		case 4: { int w=(int)c.rng.i(1,5),h=(int)c.rng.i(1,5); for( int x=0;x<=w;x++ ) for( int y=0;y<=h;y++ ) v.push_back({(LD)x,(LD)y}); break; } // full grid
		case 5: { int y0=(int)c.rng.i(-3,3); for( int i=0;i<n;i++ ) v.push_back({(LD)c.rng.i(-R,R),(LD)y0}); for( int i=0;i<n;i++ ) v.push_back({(LD)c.rng.i(-R,R),(LD)(y0+c.rng.i(0,4))}); break; } // several on the pivot row
		case 6: { Poly h=ref::hull([&]{ Poly q; for( int i=0;i<25;i++ ) q.push_back(ipt(c.rng,4*R)); return q; }()); for( size_t i=0;i<h.size();i++ ) { v.push_back(h[i]); P m=h[i]+h[(i+1)%h.size()]; for( auto p: {h[i],h[(i+1)%h.size()]} ) v.push_back(p); (void)m; if( c.rng.coin() ) v.push_back({(LD)std::floor(m.x/2),(LD)std::floor(m.y/2)}); } for( auto&p:v ) p=2.0L*p; for( size_t i=0;i<h.size();i++ ) v.push_back(h[i]+h[(i+1)%h.size()]); break; } // mid points of the sides
		default: { P p=ipt(c.rng,R); for( int i=0;i<n;i++ ) v.push_back(p+(LD)c.rng.i(0,4)*c.rng.pick(Poly{{1,0},{0,1},{1,1},{-1,1},{2,1},{1,2}})); } // rays from the pivot
	}
	if( lat && c.rng.coin() ) { int k=(int)c.rng.i(-11,9); for( auto& p: v ) { p.x=std::ldexp(p.x,k); p.y=std::ldexp(p.y,k); } c.cls(k<-5?"tiny":"scaled"); }
	if( !lat )
	{
		int k=(int)c.rng.i(0,2); if( k==0 ) { LD sc=c.rng.coin(3)?std::pow(10.L,c.rng.d(-4,0)):1; v.clear(); for( int i=0;i<n;i++ ) v.push_back({(LD)c.rng.d(-50,50)*sc,(LD)c.rng.d(-50,50)*sc}); if( c.rng.coin() ) for( int i=0;i<n;i++ ) { LD t=c.rng.u(); P a=c.rng.pick(v),b=c.rng.pick(v); v.push_back(a+t*(b-a)); } }
		else { LD m=k==1?0.1L:(LD)c.rng.d(0.05,3), x=c.rng.d(-9,9), y=c.rng.d(-9,9), a=c.rng.coin()?0:(LD)c.rng.d(-3,3); for( auto&p:v ) p={ (std::cos(a)*p.x-std::sin(a)*p.y)*m+x, (std::sin(a)*p.x+std::cos(a)*p.y)*m+y }; }
		for( auto&p:v ) { p.x=(double)p.x; p.y=(double)p.y; }
	}
	c.rng.shuffle(v); return v;
}
static bool flat( const Poly& v ) { LD S=0,w=0; P a=v[0],b=a; for( auto&p:v ) if( ref::dist(a,p)>ref::dist(a,b) ) b=p; S=ref::dist(a,b); if( S<1e-6L ) return true; for( auto&p:v ) w=std::max(w,std::fabs(ref::crs(a,b,p))/S); return w<1e-3L*S||w<1e-4L; }
// v: the input, h: announced hull
static void judge( mon::Case& c, const std::string& k, const Poly& v, const Poly& h, bool lat )
{
	auto show=[&]( std::ostream&o ) { o<<"hull "; for( auto&p:h ) o<<str(p); }; LD S=1; for( auto&p:v ) S=std::max(S,std::max(std::fabs(p.x),std::fabs(p.y)));
	for( auto&p:h ) c.chkf(k+"vertex-is-input",std::find(v.begin(),v.end(),p)!=v.end(),show);
	Poly e=ref::hull(v); if( lat ) { c.chkf(k+"exact",cyc(h,e),show); return; }
	size_t n=h.size(); c.chkf(k+"size",n>=3&&n<=v.size(),show); if( n<3 ) return; LD T=1e-12L*S*10; int or_=ref::area2(h)>0?1:-1;
	for( size_t i=0;i<n;i++ ) { P a=h[i],b=h[(i+1)%n]; LD L=ref::dist(a,b); c.chkf(k+"no-duplicate",L>1e-11L,show); for( auto&p:v ) c.chkf(k+"contains",or_*ref::crs(a,b,p)/std::max(L,(LD)1e-9L)>=-T/std::min((LD)1,L),show); }
	c.chkf(k+"once-around",[&]{ LD s=0; for( size_t i=0;i<n;i++ ) { P a=h[(i+1)%n]-h[i],b=h[(i+2)%n]-h[(i+1)%n]; s+=std::atan2(ref::crs(a,b),ref::dot(a,b)); } return std::fabs(std::fabs(s)-2*ref::PI)<1e-3L; }(),show);
	size_t m=e.size(); for( size_t i=0;i<m;i++ ) { LD d=ref::dSeg(e[i],e[(i+m-1)%m],e[(i+1)%m]); if( d<1e-8L*S ) continue; bool f=false; for( auto&p:h ) f=f||ref::dist(p,e[i])<1e-9L; c.chkf(k+"extreme-present",f,show); }
}
template<typename F> void hulls( mon::Case& c, bool lat )
{
	Poly v=cloud(c,lat); for( auto&p:v ) { p.x=(F)p.x; p.y=(F)p.y; } inV(c,"v",v); if( v.size()<3||flat(v) ) { c.skip("flat"); return; } if( v.size()==3 ) c.cls("three"); c.cls(v.size()>20?"large":"small");
	typedef Point2d_<F> Pt; auto mkw=[&]( const Poly& q ) { std::vector<Pt> w; for( auto&p:q ) w.push_back(Pt((F)p.x,(F)p.y)); return w; }; const auto w=mkw(v); const auto keep=w;
	auto h1=convexHull(w); Poly h=rdv(static_cast<const decltype(h1)&>(h1).getPts()); judge(c,"",v,h,lat); c.chk("input-kept",rdv(w)==v);
	c.chkf("convex",h1.isSimple()&&h1.isConvex(),[&](std::ostream&o){ for( auto&p:h ) o<<str(p); }); { Poly s=v; c.rng.shuffle(s); auto h2=convexHull(mkw(s)); judge(c,"shuffled-",v,rdv(static_cast<const decltype(h2)&>(h2).getPts()),lat); if( lat ) c.chk("order-free",h1==h2); }
	{ auto h3=convexHull(h1); Poly g=rdv(static_cast<const decltype(h3)&>(h3).getPts()); c.chkf("idempotent",lat?cyc(g,h):g.size()<=h.size(),[&](std::ostream&o){ for( auto&p:g ) o<<str(p); }); judge(c,"again-",h,g,lat); auto h4=h1.convexHull(); c.chk("member",h4==h3); }
	{ std::list<Pt> l(w.begin(),w.end()); auto h5=convexHull(l); c.chk("list",rdv(static_cast<const decltype(h5)&>(h5).getPts())==h); }
	{ std::array<Pt,6> a; for( int i=0;i<6;i++ ) a[i]=w[i%w.size()]; Poly q=rdv(a); if( !flat(q) ) { auto h6=convexHull(a); judge(c,"array-",q,rdv(static_cast<const decltype(h6)&>(h6).getPts()),lat); } }
	Poly u; for( auto&p:v ) if( u.empty()||ref::dist(u.back(),p)>1e-6L ) u.push_back(p); while( u.size()>1&&ref::dist(u.back(),u[0])<1e-6L ) u.pop_back(); if( u.size()>=3&&!flat(u) )
	{
		CPolyline_<F> cp(mkw(u)); OPolyline_<F> op(mkw(u)); if( c.rng.coin() ) { (void)(cp==cp); (void)(op==op); } const auto cc=cp; auto a=convexHull(cp), b=op.convexHull(), d=cp.convexHull(), e=convexHull(op);
		for( auto x: {&a,&b,&d,&e} ) judge(c,"polyline-",u,rdv(static_cast<const CPolyline_<F>&>(*x).getPts()),lat); c.chk("source-kept",cp==cc); Poly k=rdv(static_cast<const CPolyline_<F>&>(cp).getPts()); c.chk("source-points",k.size()==u.size()); c.near("area",a.area(),lat?std::fabs(ref::area2(ref::hull(u)))/2:a.area(),1e-3L);
	}
}
SECTION(lattice,12000) { if( c.rng.coin(4) ) hulls<float>(c,true); else if( c.rng.coin(4) ) hulls<long double>(c,true); else hulls<NT>(c,true); }
SECTION(real,10000) { hulls<NT>(c,false); }
SECTION(small,300) { CPolyline e; c.eq("empty",e.convexHull().size(),0u); c.eq("empty-vector",convexHull(std::vector<Point2d>{}).size(),0u); P a=ipt(c.rng,9), b=a+P{(LD)c.rng.i(1,5),(LD)c.rng.i(-4,4)}; inP(c,"a",a); CPolyline p(mkv({a,b})); c.chk("two",p.convexHull()==p&&convexHull(p)==p); c.throws("one",[&]{ (void)convexHull(mkv({a})); }); }
MON_MAIN
