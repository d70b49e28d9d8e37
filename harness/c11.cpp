#include "h2.hpp"
#include <list>
#include <array>
using namespace gen;

static bool closeP( P a, P b ) { return ref::dist(a,b)<1e-9L; }
static bool sameClosed( const Poly& a, const Poly& b ) { size_t n=a.size(); if( b.size()!=n ) return false; for( int d: {1,-1} ) for( size_t s=0;s<n;s++ ) { bool ok=true; for( size_t i=0;ok&&i<n;i++ ) ok=closeP(a[i],b[(s+(d>0?i:n-i))%n]); if( ok ) return true; } return n==0; }
static bool sameOpen( const Poly& a, const Poly& b ) { size_t n=a.size(); if( b.size()!=n ) return false; bool f=true,r=true; for( size_t i=0;i<n;i++ ) { f=f&&closeP(a[i],b[i]); r=r&&closeP(a[i],b[n-1-i]); } return f||r; }
static bool valid( const Poly& v ) { if( v.size()==1 ) return false; for( size_t i=0;i<v.size();i++ ) if( ref::dist(v[i],v[(i+1)%v.size()])<1e-3L ) return false; return true; }

static Poly rnd( mon::Case& c, int nmin )
{
	for(;;)
	{
		int n=gen::num(c.rng,nmin,8), R=(int)c.rng.i(1,8); Poly v; int k=(int)c.rng.i(0,7);
		if( k<2 ) v=simplePoly(c.rng,std::max(n,3),std::max(R,2)); else if( k==2 ) { for( int i=0;i<n;i++ ) v.push_back({(LD)c.rng.d(-R,R),(LD)c.rng.d(-R,R)}); }
		else if( k==3 ) { P d=ipt(c.rng,3); for( int i=0;i<n;i++ ) v.push_back((LD)c.rng.i(-4,4)*d); } // aligned
		else if( k==4 ) { std::vector<P> few; for( int i=0;i<3;i++ ) few.push_back(ipt(c.rng,R)); for( int i=0;i<n;i++ ) v.push_back(c.rng.pick(few)); } // same points visited several times
		else for( int i=0;i<n;i++ ) v.push_back(ipt(c.rng,R));
		if( c.rng.coin(4) ) { LD m=c.rng.d(0.01,2), t=c.rng.d(-5,5); for( auto&p:v ) { p.x=p.x*m+t; p.y=p.y*m-t; } }
		for( auto&p:v ) { p.x=(NT)(double)p.x; p.y=(NT)(double)p.y; } // also for long double runs
		if( (int)v.size()>=nmin && valid(v) ) return v;
	}
}
static Poly variant( mon::Rng& r, Poly v, bool closed ) { if( r.coin() ) std::reverse(v.begin(),v.end()); if( closed ) std::rotate(v.begin(),v.begin()+r.i(0,v.size()-1),v.end()); return v; }
template<typename PL> PL build( mon::Rng& r, const Poly& v )
{
	auto w=mkv(v);
	switch( r.i(0,5) )
	{
		case 0: return PL(w);
		case 1: { std::list<Point2d> l(w.begin(),w.end()); return PL(l); }
		case 2: { PL p; p.set(w); return p; }
		case 3: { PL p(w); PL q(p); return q; }
		case 4: { PL p; p=PL(w); return p; }
		default: { PL p(mkv(Poly{{0,0},{9,7}})); (void)(p==PL(w)); (void)p.length(); p.set(w); return p; }
	}
}
template<typename PL> void equality( mon::Case& c )
{
	const bool closed=std::is_same_v<PL,CPolyline>; Poly v=rnd(c,2); inV(c,"v",v); c.in("closed",closed);
	Poly w; int kind=(int)c.rng.i(0,4);
	switch( kind )
	{
		case 0: case 1: w=variant(c.rng,v,closed); break;
		case 2: w=variant(c.rng,v,closed); if( w.size()>2 ) std::swap(w[c.rng.i(0,w.size()-1)],w[c.rng.i(0,w.size()-1)]); break; // same set of points, other order
		case 3: { w=variant(c.rng,v,closed); size_t i=c.rng.i(0,w.size()-1); if( c.rng.coin() ) w[i]=w[i]+P{(LD)c.rng.i(-1,1),(LD)c.rng.i(-1,1)}; else if( c.rng.coin() ) w.erase(w.begin()+i); else w.insert(w.begin()+i,ref::mid(w[i],w[(i+1)%w.size()])+P{0,1}); break; }
		default: { w=v; if( !closed ) std::rotate(w.begin(),w.begin()+c.rng.i(0,w.size()-1),w.end()); else w=rnd(c,2); }
	}
	for( auto&p:w ) { p.x=(NT)(double)p.x; p.y=(NT)(double)p.y; }
	if( !valid(w)||w.size()<2 ) { c.skip("invalid"); return; } inV(c,"w",w);
	bool e= closed?sameClosed(v,w):sameOpen(v,w); c.cls(e?"same":"different"); PL a=build<PL>(c.rng,v), b=build<PL>(c.rng,w); PL other=build<PL>(c.rng,rnd(c,2));
	for( int k=0;k<3;k++ )
	{
		switch( c.rng.i(0,3) ) { case 0: (void)(a==other); break; case 1: (void)(other!=b); break; case 2: (void)a.length(); (void)a.isSimple(); break; default:; }
		bool r=a==b, q=b==a; c.chkf("equal",r==e&&q==e,[&](std::ostream&o){o<<"got "<<r<<","<<q<<" expected "<<e;}); c.chk("not-equal",(a!=b)==!e&&(b!=a)==!e); c.chk("self",a==a&&b==b&&!(a!=a));
		Poly ga=rdv(static_cast<const PL&>(a).getPts()), gb=rdv(static_cast<const PL&>(b).getPts()); c.chk("shape-kept",(closed?sameClosed(ga,v):sameOpen(ga,v))&&(closed?sameClosed(gb,w):sameOpen(gb,w)));
	}
	// chain of moves after comparisons: equality follows the points
	NT dx=(NT)c.rng.i(-9,9), dy=(NT)c.rng.i(-9,9); if( dx!=0||dy!=0 ) { PL t(a); (void)(t==b); t.translate(dx,dy); Poly m; for( auto&p:v ) m.push_back({(LD)(NT)(p.x+dx),(LD)(NT)(p.y+dy)}); PL fresh(mkv(m)); c.chk("moved-equal",t==fresh&&fresh==t); bool me=closed?sameClosed(m,v):sameOpen(m,v); c.chk("moved-vs-old",(t==a)==me); for( auto rr: {Rotate::CCW,Rotate::HMirror,Rotate::CW,Rotate::Full,Rotate::VMirror} ) { PL u(a); (void)(u==b); u.rotate(rr); Poly z; for( auto&p:v ) z.push_back( rr==Rotate::CCW?P{-p.y,p.x}:rr==Rotate::HMirror?P{p.x,-p.y}:rr==Rotate::CW?P{p.y,-p.x}:rr==Rotate::Full?P{-p.x,-p.y}:P{-p.x,p.y} ); PL f2(mkv(z)); c.chk("rotated-equal",u==f2&&f2==u); } }
	// conversions keep the points
	{ std::vector<Point2d_<long double>> lv; for( auto&p:v ) lv.push_back(Point2d_<long double>(p.x,p.y)); std::conditional_t<std::is_same_v<PL,CPolyline>,CPolyline_<long double>,OPolyline_<long double>> L(lv); PL back(L); bool me=true; auto g=static_cast<const PL&>(back).getPts(); for( size_t i=0;i<v.size();i++ ) me=me&&rd(g[i])==v[i]; c.chk("from-long-double",me&&g.size()==v.size()); c.chk("mixed-equal",(L==back)&&(back==L)); }
}
SECTION(closedEq,20000) { equality<CPolyline>(c); }
SECTION(openEq,10000) { equality<OPolyline>(c); }
SECTION(openVsClosed,2000)
{
	Poly v=rnd(c,2); inV(c,"v",v); OPolyline o(mkv(v)); CPolyline k(mkv(v)); c.chk("differs",!(o==k)&&!(k==o)&&o!=k&&k!=o); CPolyline conv(o); c.chk("closed-from-open",rdv(static_cast<const CPolyline&>(conv).getPts())==v&&conv==k); OPolyline cp(o); c.chk("copy",rdv(static_cast<const OPolyline&>(cp).getPts())==v);
	CPolyline e1,e2; OPolyline e3,e4; c.chk("empty-equal",e1==e2&&e3==e4&&!(e1==k)&&!(e3==o)); c.eq("empty-size",e1.size(),0u);
	Segment s(mk(v[0]),mk(v[1])); auto sp=s.getPts(); OPolyline os(s); CPolyline cs(s); c.chk("from-segment",rdv(static_cast<const OPolyline&>(os).getPts())==Poly{rd(sp.first),rd(sp.second)}&&rdv(static_cast<const CPolyline&>(cs).getPts())==Poly{rd(sp.first),rd(sp.second)});
	P a=v[0], b=a+P{(LD)c.rng.i(1,9),(LD)c.rng.i(1,9)}; FRect r(mk(a),mk(b)); CPolyline cr(r); CPolyline cr2; cr2.set(r); Poly ex; for( auto&p:r.get4Pts() ) ex.push_back(rd(p)); c.chk("from-rect",rdv(static_cast<const CPolyline&>(cr).getPts())==ex&&cr2==cr&&rdv(static_cast<const CPolyline&>(cr2).getPts()).size()==4);
	// refused inputs
	auto bad=[&]( const std::string& k2, const Poly& q ) { auto w=mkv(q); c.throws(k2+"-ctor-closed",[&]{ CPolyline x(w); }); c.throws(k2+"-ctor-open",[&]{ OPolyline x(w); }); c.throws(k2+"-set",[&]{ k.set(w); }); std::list<Point2d> l(w.begin(),w.end()); c.throws(k2+"-list",[&]{ OPolyline x(l); }); c.chk(k2+"-unchanged",k==conv); };
	bad("one-point",{v[0]}); bad("two-identical",{v[0],v[0]}); { Poly q=v; size_t i=c.rng.i(0,q.size()-1); q.insert(q.begin()+i,q[i]); bad("consecutive",q); } { Poly q=v; q.push_back(v[0]); bad("first-last",q); }
	c.quiet("empty-ok",[&]{ CPolyline x(std::vector<Point2d>{}); OPolyline y; y.set(std::vector<Point2d>{}); if( x.size()||y.size() ) throw std::runtime_error("not empty"); });
	{ std::array<Point2d,3> ar{ Point2d(0,0),Point2d(1,2),Point2d(3,1) }; CPolyline x(ar); c.eq("array",x.size(),3u); }
}
// minimize: removes exactly the vertices on the straight path between their neighbours
template<typename PL> void minim( mon::Case& c )
{
	const bool closed=std::is_same_v<PL,CPolyline>; Poly base=rnd(c,closed?3:2), v; size_t n=base.size(); bool exact=true; LD SX=1, T=0; int mode=(int)c.rng.i(0,3);
	// the input is base with extra vertices on its sides; directions cover the axes and all quadrants
	if( c.rng.coin(3) ) { for( auto&p:base ) { p.x=std::round(p.x); p.y=std::round(p.y); } if( !valid(base) ) { c.skip("invalid"); return; } P t=base[0]; for( size_t i=1;i<n;i++ ) { if( i&1 ) base[i].y=base[i-1].y; else base[i].x=base[i-1].x; } (void)t; if( !valid(base) ) { c.skip("invalid"); return; } }
	for( size_t i=0;i<n;i++ ) { v.push_back(base[i]); if( i+1==n&&!closed ) break; int m=c.rng.coin()?0:(int)c.rng.i(1,3); for( int k=1;k<=m;k++ ) v.push_back( base[i]+((LD)k/(m+1))*(base[(i+1)%n]-base[i]) ); }
	if( mode==1 ) { SX=0.1L; T=c.rng.d(-1,1); } const bool noise=c.rng.coin(4); if( noise ) for( auto&p:v ) { p.x+=c.rng.i(-3,3)*1e-15L; p.y+=c.rng.i(-3,3)*1e-15L; } // coordinates known up to rounding
	for( auto&p:v ) { p.x=(NT)(p.x*SX+T); p.y=(NT)(p.y*SX-T); } (void)exact;
	if( c.rng.coin() ) std::reverse(v.begin(),v.end()); if( closed ) std::rotate(v.begin(),v.begin()+c.rng.i(0,v.size()-1),v.end()); if( !valid(v) ) { c.skip("invalid"); return; }
	inV(c,"v",v); c.in("closed",closed); n=v.size(); Poly e; std::vector<int> rm;
	for( size_t i=0;i<n;i++ ) { bool end=!closed&&(i==0||i+1==n); bool drop=false; if( !end&&n>2 ) { P a=v[i]-v[(i+n-1)%n], b=v[(i+1)%n]-v[i]; LD ang=std::atan2(ref::crs(a,b),ref::dot(a,b)); if( std::fabs(ang)>0.0005L&&std::fabs(ang)<0.002L ) { c.skip("near threshold"); return; } drop=std::fabs(ang)<0.001L; } if( !drop ) e.push_back(v[i]); }
	PL p=build<PL>(c.rng,v); int pre=(int)c.rng.i(0,3); if( pre==0 ) (void)p.length(); if( pre==1 ) (void)(p==p); if( pre==2 ) { (void)p.area(); (void)p.isSimple(); } LD L0=p.length(), A0=p.area(); (void)A0;
	p.minimize(); Poly g=rdv(static_cast<const PL&>(p).getPts()); c.cls(e.size()==n?"nothing":"removed");
	c.chkf("minimal",closed?sameClosed(g,e):sameOpen(g,e),[&](std::ostream&o){o<<"got "; for(auto&q:g)o<<str(q); o<<" expected "; for(auto&q:e)o<<str(q);}); c.eq("size",p.size(),e.size());
	c.near("length-kept",p.length(),L0,1e-4L*L0); if( mode!=1 ) c.near("length",p.length(),ref::perim(g,closed),1e-9L*(1+L0)); Poly g1=g; p.minimize(); Poly g2=rdv(static_cast<const PL&>(p).getPts()); bool again=false; { size_t m=g1.size(); for( size_t i=0;i<m;i++ ) { if( m<3||(!closed&&(i==0||i+1==m)) ) continue; P a=g1[i]-g1[(i+m-1)%m], b=g1[(i+1)%m]-g1[i]; if( std::fabs(std::atan2(ref::crs(a,b),ref::dot(a,b)))<0.002L ) again=true; } } if( !again ) c.chk("idempotent",g1==g2);
}
SECTION(minimClosed,12000) { minim<CPolyline>(c); }
SECTION(minimOpen,8000) { minim<OPolyline>(c); }
MON_MAIN
