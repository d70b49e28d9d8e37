#include "h2.hpp"
#include <list>
using namespace gen;

static const LD MG=1e-6L;
// signed clearance of p to the boundary of each region (positive inside), exactly zero on lattices when on the edge
struct Region { virtual ~Region() {} virtual LD clear( P p ) const=0; };
struct RRect: Region { LD x0,y0,x1,y1; RRect( P a, P b ) { x0=std::min(a.x,b.x);x1=std::max(a.x,b.x);y0=std::min(a.y,b.y);y1=std::max(a.y,b.y); } LD clear( P p ) const override { return std::min( std::min(p.x-x0,x1-p.x), std::min(p.y-y0,y1-p.y) ); } };
struct RCir: Region { P c; LD r; RCir( P c_, LD r_ ): c(c_), r(r_) {} LD clear( P p ) const override { return r-ref::dist(p,c); } };
struct RPoly: Region { Poly v; RPoly( Poly v_ ): v(v_) {} LD clear( P p ) const override { LD d=ref::dPoly(p,v); if( d==0 ) return 0; for( size_t i=0;i<v.size();i++ ) if( ref::onSeg(p,v[i],v[(i+1)%v.size()]) ) return 0; return ref::inPoly(p,v)?d:-d; } };
struct REll: Region { P c; LD a,b,th; REll( P c_, LD a_, LD b_, LD t ): c(c_),a(a_),b(b_),th(t) { if( a<b ) std::swap(a,b); } LD clear( P p ) const override { P d=ref::rot(p-c,-th); return (1-std::hypot(d.x/a,d.y/b))*b; } };

// 1 inside, 0 not, -1 undecided
static int dec( LD m, bool exact ) { if( std::fabs(m)<MG ) return exact&&std::fabs(m)<1e-15L?0:-1; return m>0; }
static int ptsIn( const Poly& q, const Region& R, bool exact ) { int r=1; for( auto&p:q ) { int d=dec(R.clear(p),exact); if( d==0 ) return 0; if( d<0 ) r=-1; } return r; }
// do two exact sets of segments touch; for real coordinates returns -1 when close
static int touch( const Poly& a, bool ca, const Poly& b, bool exact )
{
	LD m=1e300L;
	for( size_t i=0;i+(ca?0:1)<a.size();i++ ) for( size_t j=0;j<b.size();j++ )
	{
		P p=a[i],q=a[(i+1)%a.size()],s=b[j],t=b[(j+1)%b.size()];
		if( ref::segsTouch(p,q,s,t) ) { if( exact ) return 1; LD k=std::min(std::min(ref::dSeg(p,s,t),ref::dSeg(q,s,t)),std::min(ref::dSeg(s,p,q),ref::dSeg(t,p,q))); if( k>MG ) return 1; m=std::min(m,k); }
		else m=std::min(m,std::min(std::min(ref::dSeg(p,s,t),ref::dSeg(q,s,t)),std::min(ref::dSeg(s,p,q),ref::dSeg(t,p,q))));
	}
	return m<MG?(exact?0:-1):0;
}
// a polyline (open or closed) strictly inside a simple polygon: no boundary contact, and one point inside
static int chainInPoly( const Poly& a, bool ca, const RPoly& R, bool exact ) { int t=touch(a,ca,R.v,exact); if( t==1 ) return 0; int d=dec(R.clear(a[0]),exact); if( d==0 ) return 0; if( d<0||t<0 ) return -1; return 1; }
static int cirInPoly( P c, LD r, const RPoly& R, bool exact ) { LD k=R.clear(c)-r; (void)exact; if( std::fabs(k)<1e-6L ) return -1; return k>0; }

struct Gen { mon::Rng& r; bool lat; int R;
	P p() { return lat ? ipt(r,R) : P{(LD)r.d(-R,R),(LD)r.d(-R,R)}; }
	LD rad() { return lat ? (LD)r.i(1,R) : (LD)r.d(0.5,R); }
	P rect2( P a ) { for(;;) { P b=p(); if( std::fabs(a.x-b.x)>0.3&&std::fabs(a.y-b.y)>0.3 ) return b; } }
	P in( const Poly& v ) { if( v.empty()||r.coin(3) ) return p(); size_t i=r.i(0,v.size()-1); P a=v[i],b=v[(i+1)%v.size()]; P q; switch( r.i(0,4) ) { case 0: q=a; break; case 1: { LD s=0,t=0; for( auto&x:v ) { s+=x.x; t+=x.y; } q={s/v.size(),t/v.size()}; break; } case 2: q={a.x,v[r.i(0,v.size()-1)].y}; break; case 3: q=ref::mid(a,b); break; default: q=ref::mid(ref::mid(a,b),v[r.i(0,v.size()-1)]); } if( lat ) { q.x=std::round(q.x); q.y=std::round(q.y); } else if( r.coin() ) q=q+P{(LD)r.d(-1,1),(LD)r.d(-1,1)}; q.x=(double)q.x; q.y=(double)q.y; return q; }
};
template<typename A,typename B> void say( mon::Case& c, const std::string& k, const A& a, const B& b, int e ) { if( e<0 ) return; bool g=a.isInside(b); c.chkf(k,g==(e==1),[&](std::ostream&o){o<<"got "<<g<<" expected "<<e<<" for "<<a<<" in "<<b;}); c.cls(k+(e?"=in":"=out")); }

static void body( mon::Case& c, bool lat )
{
	Gen g{c.rng,lat,lat?(int)c.rng.i(3,10):(int)c.rng.i(3,60)};
	// containers
	P ra=g.p(), rb=g.rect2(ra); P cc=g.p(); LD cr=g.rad(); LD ea=g.rad()+1, eb=g.rad(), et=lat?c.rng.i(-2,2)*ref::PI/4:(LD)c.rng.d(-3,3); P ec=g.p();
	Poly pv; switch( c.rng.i(0,3) ) { case 0: pv= lat?simplePoly(c.rng,gen::num(c.rng,3,9),g.R):starPoly(c.rng,gen::num(c.rng,3,9),g.p(),g.R*0.2,g.R); break; case 1: pv={ra,{rb.x,ra.y},rb,{ra.x,rb.y}}; break; default: pv=simplePoly(c.rng,(int)c.rng.i(3,9),g.R); if( !lat ) for( auto&p:pv ) { p.x=(double)(p.x*1.37L+0.31L); p.y=(double)(p.y*0.93L-0.7L); } }
	if( !ref::simple(pv) || ref::clearance(pv)<1e-3L ) { c.skip("polygon not clearly simple"); return; }
	Poly orig=pv; if( c.rng.coin() ) std::reverse(pv.begin(),pv.end()); std::rotate(pv.begin(),pv.begin()+c.rng.i(0,pv.size()-1),pv.end());
	inP(c,"ra",ra); inP(c,"rb",rb); inP(c,"cc",cc); c.in("cr",cr); inP(c,"ec",ec); c.in("ell",ea,eb,et); inV(c,"poly",pv);
	RRect R(ra,rb); RCir C(cc,cr); REll E(ec,ea,eb,et); RPoly Q(pv);
	FRect hR(c.rng.coin()?FRect(mk(ra),mk(rb)):FRect(mk(P{ra.x,rb.y}),mk(P{rb.x,ra.y}))); Circle hC(mk(cc),(NT)cr); Ellipse hE(mk(ec),(NT)ea,(NT)eb,(NT)et); CPolyline hQ(mkv(pv)); OPolyline hO(mkv(pv));
	if( c.rng.coin() ) (void)(hQ==CPolyline(mkv(orig)));  // comparisons may reorder the internal representation
	// a set of points
	Poly pts; for( int i=0;i<10;i++ ) pts.push_back( g.in( c.rng.coin()?pv:Poly{ra,{rb.x,ra.y},rb,{ra.x,rb.y}} ) ); { P q=g.p(); pts.push_back(q); pts.push_back(P{cc.x+cr,cc.y}); pts.push_back(P{cc.x,cc.y-cr}); if( lat&&cr==5 ) pts.push_back(P{cc.x+3,cc.y-4}); } inV(c,"pts",pts);
	std::vector<Point2d> hp=mkv(pts);
	auto inside=[&]( auto& prim, const Region& R_, bool ex, const std::string& k ) {
		std::vector<Point2d> e; bool und=false; for( size_t i=0;i<pts.size();i++ ) { int d=dec(R_.clear(pts[i]),ex); if( d<0 ) und=true; else if( d ) e.push_back(hp[i]); say(c,"point-in-"+k,hp[i],prim,d); }
		if( !und ) { auto o=getPtsInside(hp,prim); bool ok=o.size()==e.size(); for( size_t i=0;ok&&i<o.size();i++ ) ok=o[i].get()==e[i].get(); c.chk("getPtsInside-"+k,ok); std::list<typename std::decay_t<decltype(hp)>::value_type> hl(hp.begin(),hp.end()); auto ol=getPtsInside(hl,prim); c.chk("getPtsInside-list-"+k,ol.size()==o.size()&&std::equal(o.begin(),o.end(),ol.begin())); }
	};
	inside(hR,R,true,"rect"); inside(hC,C,lat,"circle"); inside(hE,E,false,"ellipse"); inside(hQ,Q,lat,"poly");
	for( auto& p: pts ) { int d=dec(R.clear(p),true); if( d>=0 ) c.chk("point-in-2pts",mk(p).isInside(mk(rb),mk(ra))==(d==1)); d=dec(C.clear(p),lat); if( d>=0 ) c.chk("point-in-(pt,r)",mk(p).isInside(mk(cc),(NT)cr)==(d==1)); d=dec(E.clear(p),false); if( d>=0 ) c.chk("ellipse-pointIsInside",hE.pointIsInside(mk(p))==(d==1)); c.chk("point-in-open",!mk(p).isInside(hO)); c.chk("point-in-point",!mk(p).isInside(hp[0])); c.chk("point-in-seg",!mk(p).isInside(Segment(mk(ra),mk(rb)))); c.chk("point-in-line",!mk(p).isInside(Line2d(mk(ra),mk(rb)))); }
	// segments
	for( int k=0;k<6;k++ )
	{
		P a=pts[c.rng.i(0,pts.size()-1)], b=pts[c.rng.i(0,pts.size()-1)]; if( ref::dist(a,b)<0.5 ) continue; Poly s{a,b}; Segment S(mk(a),mk(b)); OSegment O(mk(b),mk(a));
		say(c,"seg-in-rect",S,hR,ptsIn(s,R,true)); say(c,"seg-in-circle",S,hC,ptsIn(s,C,lat)); say(c,"seg-in-ellipse",S,hE,ptsIn(s,E,false)); say(c,"oseg-in-rect",O,hR,ptsIn(s,R,true)); say(c,"oseg-in-circle",O,hC,ptsIn(s,C,lat));
		int e=chainInPoly(s,false,Q,lat); say(c,"seg-in-poly",S,hQ,e); say(c,"oseg-in-poly",O,hQ,e); c.chk("seg-in-open",!S.isInside(hO)&&!O.isInside(hO)); c.chk("seg-in-seg",!S.isInside(Segment(mk(ra),mk(rb)))); c.chk("seg-in-point",!S.isInside(hp[0])); c.chk("seg-in-line",!S.isInside(Line2d(mk(ra),mk(rb))));
		c.chk("line-in",!S.getLine().isInside(hR)&&!S.getLine().isInside(hC)&&!S.getLine().isInside(hE)&&!S.getLine().isInside(hQ)&&!S.getLine().isInside(hO));
		// rectangles
		if( std::fabs(a.x-b.x)>0.3&&std::fabs(a.y-b.y)>0.3 )
		{
			Poly q{a,{b.x,a.y},b,{a.x,b.y}}; FRect F(mk(a),mk(b)); say(c,"rect-in-rect",F,hR,ptsIn(q,R,true)); say(c,"rect-in-circle",F,hC,ptsIn(q,C,lat)); say(c,"rect-in-ellipse",F,hE,ptsIn(q,E,false)); say(c,"rect-in-poly",F,hQ,chainInPoly(q,true,Q,lat)); c.chk("rect-in-open",!F.isInside(hO));
		}
		// circles
		LD r=lat?(LD)c.rng.i(1,4):(LD)c.rng.d(0.3,5); Circle K(mk(a),(NT)r);
		{ LD m=cr-(ref::dist(a,cc)+r); int d=dec(m,false); if( lat&&m==0&&ref::dist(a,cc)==std::floor(ref::dist(a,cc)) ) d=0; say(c,"circle-in-circle",K,hC,d); }
		{ LD m=R.clear(a)-r; int d=dec(m,lat); say(c,"circle-in-rect",K,hR,d); if( d>=0 ) c.chk("circle-in-2pts",K.isInside(mk(rb),mk(ra))==(d==1)); }
		say(c,"circle-in-poly",K,hQ,cirInPoly(a,r,Q,lat)); c.chk("circle-in-open",!K.isInside(hO)); c.chk("circle-in-ellipse(NI)",!K.isInside(hE)); c.chk("circle-in-point",!K.isInside(hp[0]));
		// ellipses
		LD th=c.rng.d(-3,3), r2=r*c.rng.d(0.3,1); Ellipse L(mk(a),(NT)r,(NT)r2,(NT)th); LD mr=1e300L,mc=1e300L,mq=1e300L; for( int i=0;i<256;i++ ) { LD t=2*ref::PI*i/256; P p=a+ref::rot(P{r*cosl(t),r2*sinl(t)},th); mr=std::min(mr,R.clear(p)); mc=std::min(mc,C.clear(p)); mq=std::min(mq,Q.clear(p)); }
		// the manual announces T/F here; a wrong "true" and a missing "true" are told apart
		auto sayE=[&]( const std::string& k2, bool gt, int e ) { if( e==0 ) c.chk("ellipse-not-in-"+k2,!gt,"got true"); else if( e==1 ) c.chk("ellipse-in-"+k2+"-missed",gt,str(L)); };
		auto big=[&]( LD m ) { return std::fabs(m)<0.02?-1:(int)(m>0); }; sayE("rect",L.isInside(hR),big(mr)); sayE("circle",L.isInside(hC),big(mc)); sayE("poly",L.isInside(hQ),big(mq)); c.chk("ellipse-in-open",!L.isInside(hO)); c.chk("ellipse-in-ellipse(NI)",!L.isInside(hE));
	}
	// polylines
	for( int k=0;k<3;k++ )
	{
		int n=gen::num(c.rng,2,6,20,0); Poly v; while( (int)v.size()<n ) { P p=c.rng.coin(3)?g.p():pts[c.rng.i(0,pts.size()-1)]; if( v.empty()||ref::dist(p,v.back())>0.4 ) v.push_back(p); } while( v.size()>1&&ref::dist(v[0],v.back())<0.4 ) v.pop_back(); if( v.size()<2 ) continue;
		inV(c,"v",v); OPolyline O(mkv(v)); say(c,"open-in-rect",O,hR,ptsIn(v,R,true)); say(c,"open-in-circle",O,hC,ptsIn(v,C,lat)); say(c,"open-in-ellipse",O,hE,ptsIn(v,E,false)); say(c,"open-in-poly",O,hQ,chainInPoly(v,false,Q,lat)); c.chk("open-in-open",!O.isInside(hO));
		if( v.size()>2 ) { CPolyline W(mkv(v)); say(c,"closed-in-rect",W,hR,ptsIn(v,R,true)); say(c,"closed-in-circle",W,hC,ptsIn(v,C,lat)); say(c,"closed-in-ellipse",W,hE,ptsIn(v,E,false)); say(c,"closed-in-poly",W,hQ,chainInPoly(v,true,Q,lat)); c.chk("closed-in-open",!W.isInside(hO)); }
	}
	// nested scaled copy
	{ LD s=lat?2:(LD)c.rng.d(1.2,3); Poly big; for( auto&p:pv ) big.push_back(s*(p-pv[0])+pv[0]); (void)big; }
}
SECTION(lattice,12000) { body(c,true); }
SECTION(generic,10000) { body(c,false); }
// the polygon that is inside another one, in all the ways it can be described
SECTION(nested,6000)
{
	int n=gen::num(c.rng,3,8,40,0); Poly v=convexPoly(c.rng,n,P{(LD)c.rng.i(-9,9),(LD)c.rng.i(-9,9)},c.rng.d(2,30)); P g0{0,0}; for( auto&p:v ) g0=g0+(1.L/n)*p; LD s=c.rng.d(0.1,0.95); Poly w; for( auto&p:v ) { P q=g0+s*(p-g0); w.push_back({(LD)(double)q.x,(LD)(double)q.y}); }
	inV(c,"v",v); inV(c,"w",w); auto any=[&]( Poly x ) { if( c.rng.coin() ) std::reverse(x.begin(),x.end()); std::rotate(x.begin(),x.begin()+c.rng.i(0,n-1),x.end()); return CPolyline(mkv(x)); };
	if( ref::clearance(w)<1e-3L ) { c.skip("thin"); return; }
	for( int k=0;k<3;k++ ) { auto A=any(v),B=any(w); if( c.rng.coin() ) { (void)A.isSimple(); (void)A.area(); } say(c,"in",B,A,1); say(c,"out",A,B,0); say(c,"self",A,A,0); say(c,"open",OPolyline(B.getPts()),A,1); say(c,"rect-around",A,A.getBB().getExtended(),1); say(c,"bb-not",A,A.getBB(),0); }
}
// a polyline crossing itself isn't a polygon: nothing is inside it
SECTION(crossing,3000)
{
	auto& r=c.rng; int n=(int)r.i(4,9); Poly v; while( (int)v.size()<n ) { P p=ipt(r,8); if( v.empty()||(ref::dist(p,v.back())>0.5L&&((int)v.size()<n-1||ref::dist(p,v[0])>0.5L)) ) v.push_back(p); }
	int cr=0; for( int i=0;i<n;i++ ) for( int j=i+1;j<n;j++ ) { P a=v[i],b=v[(i+1)%n],d=v[j],e=v[(j+1)%n]; LD s1=ref::crs(a,b,d),s2=ref::crs(a,b,e),s3=ref::crs(d,e,a),s4=ref::crs(d,e,b); if( s1*s2<0&&s3*s4<0 ) cr++; } if( !cr ) { c.skip("no crossing"); return; }
	inV(c,"v",v); const CPolyline pl(mkv(v)); P q{(LD)r.d(-8,8),(LD)r.d(-8,8)}; LD k=r.d(0.01,1.5); inP(c,"q",q); c.in("k",k); c.chk("point",!mk(q).isInside(pl)); c.chk("circle",!Circle(mk(q),(NT)k).isInside(pl)); c.chk("rect",!FRect(mk(q),(NT)k,(NT)(k/2)).isInside(pl)); c.chk("segment",!Segment(mk(q),mk(q+P{k,k/3})).isInside(pl)); c.chk("polyline",!CPolyline(mkv(Poly{q,q+P{k,0},q+P{0,k}})).isInside(pl)); c.chk("open",!OPolyline(mkv(Poly{q,q+P{k,0},q+P{0,k}})).isInside(pl));
	{ CPolyline e; OPolyline o; CPolyline ok(mkv(Poly{q,q+P{k,0},q+P{0,k}})); c.chk("empty",!e.isInside(ok)&&!o.isInside(ok)&&!e.isInside(Circle(mk(q),(NT)k))&&!o.isInside(FRect(mk(q),mk(q+P{k,k})))&&!e.isInside(pl)); }
	auto got=getPtsInside(mkv(Poly{q,{0,0},{1,1},{0.5L,0.3L}}),pl); c.chk("getPtsInside",got.empty());
}
// a point is located with a reference segment: polygons whose vertices line up with the point in many directions
SECTION(aligned,6000)
{
	int R=(int)c.rng.i(2,6); Poly v=simplePoly(c.rng,gen::num(c.rng,4,14),R); LD k=(LD)c.rng.i(1,3); inV(c,"v",v); c.in("k",k); Poly w; for( auto&p:v ) w.push_back(k*p); CPolyline pl(mkv(w)); RPoly Q(w);
	for( LD x=-R*k-1;x<=R*k+1;x+=k/2 ) for( LD y=-R*k-1;y<=R*k+1;y+=k/2 ) { if( !c.rng.coin(4) ) continue; P p{x,y}; int d=dec(Q.clear(p),true); if( d>=0 ) { bool g=mk(p).isInside(pl); c.chkf("grid",g==(d==1),[&](std::ostream&o){o<<str(p)<<" got "<<g;}); } }
}
// sides crossed by the reference segment under a very small angle
SECTION(shallow,6000)
{
	LD y=c.rng.d(45,55), e1=c.rng.d(0.0005,0.02), e2=c.rng.d(0.0005,0.02), x1=c.rng.d(30,60), x2=c.rng.d(5,25); bool tr=c.rng.coin(), mx=c.rng.coin();
	Poly v{{0,0},{100,0},{100,100},{0,100},{x1,y+e1},{x2,y-e2}}; LD px=c.rng.d(x1+2,98), py=y+c.rng.d(-1,1)*c.rng.d(0,0.02); std::vector<P> qs{{px,py},{(x1+x2)/2,y+0.2L},{(x1+x2)/2,y-0.2L},{px,50},{(x1+x2)/2,50}};
	auto f=[&]( P p ) { if( mx ) p.x=100-p.x; if( tr ) std::swap(p.x,p.y); p.x=(double)p.x; p.y=(double)p.y; return p; }; for( auto&p:v ) p=f(p); for( auto&p:qs ) p=f(p);
	inV(c,"v",v); inV(c,"qs",qs); if( !ref::simple(v) ) { c.skip("not simple"); return; } CPolyline pl(mkv(v)); RPoly Q(v); for( auto&p:qs ) say(c,"point",mk(p),pl,dec(Q.clear(p),false));
}
MON_MAIN
