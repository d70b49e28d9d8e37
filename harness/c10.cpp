#include "h2.hpp"
#include <list>
using namespace gen;

// 1 simple, 0 not, -1 undecided (contacts within MG, or only near-parallel contacts, which the library documents as parallel)
static const LD MG=1e-6L;
static int simpleDec( const Poly& v, bool exact )
{
	size_t n=v.size(); if( n<3 ) return 0; bool und=false;
	for( size_t i=0;i<n;i++ )
	{
		P p=v[(i+n-1)%n]-v[i], q=v[(i+1)%n]-v[i]; LD cr=ref::crs(p,q), d=std::fabs(cr)/std::max(ref::norm(p),ref::norm(q));
		if( ref::dot(p,q)>0 ) { if( exact ? cr==0 : d<1e-13L ) return 0; if( d<MG ) und=true; }
	}
	for( size_t i=0;i<n;i++ ) for( size_t j=i+2;j<n;j++ )
	{
		if( i==0&&j==n-1 ) continue; P a=v[i],b=v[i+1],c=v[j],d=v[(j+1)%n]; LD s=std::fabs(ref::crs(b-a,d-c))/ref::dist(a,b)/ref::dist(c,d);
		LD m=std::min(std::min(ref::dSeg(a,c,d),ref::dSeg(b,c,d)),std::min(ref::dSeg(c,a,b),ref::dSeg(d,a,b)));
		if( ref::segsTouch(a,b,c,d) ) { if( s<0.003L ) { und=true; continue; } if( exact || m>MG ) return 0; und=true; }
		else if( m<MG && !exact ) und=true;
	}
	return und?-1:1;
}
// 1 convex, 0 not, -1 undecided; v is simple
static int convexDec( const Poly& v, bool exact ) { int s=0; bool und=false; size_t n=v.size(); for( size_t i=0;i<n;i++ ) { P p=v[(i+n-1)%n],q=v[i],r=v[(i+1)%n]; LD cr=ref::crs(p,q,r), d=cr/ref::dist(p,r); int k; if( exact ? cr==0 : std::fabs(d)<1e-13L ) k=0; else if( std::fabs(d)<MG ) { und=true; k=0; } else k=d>0?1:-1; if( k&&s&&k!=s ) return 0; if( k ) s=k; } return und?-1:1; }

template<typename PL> constexpr bool isC() { return std::is_same_v<PL,CPolyline>; }
template<typename PL> void verify( mon::Case& c, const PL& pl, bool exact, int mask )
{
	const bool closed=isC<PL>(); Poly v=rdv(pl.getPts()); size_t n=v.size(); LD S=1; for( auto&p:v ) S=std::max(S,std::max(std::fabs(p.x),std::fabs(p.y)));
	if( exact ) for( auto&p:v ) if( p.x!=std::round(4*p.x)/4||p.y!=std::round(4*p.y)/4 ) exact=false;
	auto show=[&]( std::ostream&o ) { for( auto&p:v ) o<<str(p); };
	int s= closed? simpleDec(v,exact) : 0; bool near2=false; for( size_t i=0;i+(closed?0:1)<n;i++ ) if( ref::dist(v[i],v[(i+1)%n])<1e-8L ) near2=true;
	std::vector<int> order; for( int k=0;k<9;k++ ) if( mask&(1<<k) ) order.push_back(k); c.rng.shuffle(order);
	LD T=1e-11L*S*(1+n), A=std::fabs(ref::area2(v))/2;
	for( int k: order ) switch( k )
	{
		case 0: c.eq("size",pl.size(),n); c.eq("size-free",(size_t)size(pl),n); break;
		case 1: { size_t e=n<2?0:closed?n:n-1; c.eq("nbSegs",pl.nbSegs(),e); c.eq("nbSegs-free",nbSegs(pl),e); break; }
		case 2: for( size_t i=0;i<n;i++ ) c.chk("getPoint",rd(pl.getPoint(i))==v[i]); c.throws("getPoint-oob",[&]{ (void)pl.getPoint(n+c.rng.i(0,3)); }); break;
		case 3: { if( near2 ) break; size_t e=n<2?0:closed?n:n-1; auto sg=pl.getSegs(); auto os=pl.getOSegs(); auto sf=getSegs(pl); c.chk("segs-size",sg.size()==e&&os.size()==e&&sf.size()==e); for( size_t i=0;i<e&&i<sg.size()&&i<os.size();i++ ) { P a=v[i],b=v[(i+1)%n]; auto q=os[i].getPts(); auto q2=pl.getOSegment(i).getPts(); c.chk("oseg",rd(q.first)==a&&rd(q.second)==b&&rd(q2.first)==a&&rd(q2.second)==b); Segment x(mk(a),mk(b)); c.chk("seg",sg[i]==x&&sf[i]==x&&pl.getSegment(i)==x); } c.throws("getSegment-oob",[&]{ (void)pl.getSegment(e); }); c.throws("getOSegment-oob",[&]{ (void)pl.getOSegment(e+1); }); break; }
		case 4: { if( near2 ) break; LD L=ref::perim(v,closed); c.near("length",pl.length(),L,T); c.near("length-free",length(pl),L,T); break; }
		case 5: { if( s<0 ) break; c.chkf("isSimple",pl.isSimple()==(s==1),show); c.chk("isSimple-free",isSimple(pl)==(s==1)); c.cls(s?"simple":"not-simple"); break; }
		case 6: { if( s<0 ) break; int k2=s==0?0:convexDec(v,exact); if( k2<0 ) break; c.chkf("isConvex",pl.isConvex()==(k2==1),show); c.chk("isConvex-free",isConvex(pl)==(k2==1)); c.cls(k2?"convex":"not-convex"); break; }
		case 7: { if( s<0 ) break; c.near("area",pl.area(),s?A:0,T*S); c.near("area-free",area(pl),s?A:0,T*S); break; }
		case 8: { if( s<0 ) break; if( !s ) { c.throws("centroid-throws",[&]{ (void)pl.centroid(); }); break; } if( A<1e-3L*S ) break; P g=ref::centroid(v); LD tc=1e-12L*S*S*S/A*(1+n)*4+1e-10L; P got=rd(pl.centroid()); c.chkf("centroid",ref::dist(got,g)<=tc,[&](std::ostream&o){o<<"got "<<str(got)<<" expected "<<str(g)<<" pts "; show(o);}); c.chk("centroid-free",ref::dist(rd(centroid(pl)),g)<=tc); break; }
	}
	c.chk("isClosed",pl.isClosed()==closed);
	Poly w=rdv(pl.getPts()); c.chk("points-unchanged",w==v);
}

static Poly rndPts( mon::Case& c, bool lat, int nmin )
{
	for(;;)
	{
		Poly v; int n=gen::num(c.rng,nmin,9), R=(int)c.rng.i(3,12);
		switch( c.rng.i(0,6) )
		{
			case 0: case 1: v=simplePoly(c.rng,std::max(n,3),R); break;
			case 2: v=lat?ref::hull([&]{ Poly q; for( int i=0;i<12;i++ ) q.push_back(ipt(c.rng,R)); return q; }()):convexPoly(c.rng,std::max(3,n),P{(LD)c.rng.i(-9,9),(LD)c.rng.i(-9,9)},R); break;
			case 3: { v=simplePoly(c.rng,std::max(n,3),R); Poly w; for( size_t i=0;i<v.size();i++ ) { P a=2*v[i],b=2*v[(i+1)%v.size()]; w.push_back(a); if( c.rng.coin() ) w.push_back(ref::mid(a,b)); } v=w; break; } // collinear vertices
			case 4: { Poly q; for( int i=0;i<12;i++ ) q.push_back(ipt(c.rng,R)); q=ref::hull(q); for( size_t i=0;i<q.size();i++ ) { P a=4*q[i],b=4*q[(i+1)%q.size()]; v.push_back(a); for( int k=1;k<4;k++ ) if( c.rng.coin(3) ) v.push_back(a+(k/4.L)*(b-a)); } break; }
			case 5: { P d=ipt(c.rng,4); for( int i=0;i<n;i++ ) v.push_back( ((LD)c.rng.i(-6,6))*d + P{1,2} ); if( c.rng.coin() ) v.push_back(ipt(c.rng,R)); break; } // (nearly) all aligned
			default: for( int i=0;i<n;i++ ) v.push_back( lat?ipt(c.rng,R):P{(LD)c.rng.d(-R,R),(LD)c.rng.d(-R,R)} );
		}
		if( !lat && c.rng.coin() ) { LD sx=c.rng.d(0.2,3), tx=c.rng.d(-20,20); for( auto&p:v ) { p.x=(double)(p.x*sx+tx); p.y=(double)(p.y*1.3L-tx); } }
		if( c.rng.coin() ) std::reverse(v.begin(),v.end()); if( !v.empty() ) std::rotate(v.begin(),v.begin()+c.rng.i(0,v.size()-1),v.end());
		Poly w; for( auto&p:v ) if( w.empty()||ref::dist(w.back(),p)>1e-3L ) w.push_back(p); while( w.size()>1&&ref::dist(w.back(),w[0])<1e-3L ) w.pop_back();
		if( (int)w.size()>=nmin ) { LD u=c.rng.i(0,3)?1:std::ldexp(1.L,(int)c.rng.i(-5,4)); for( auto& p: w ) p=u*p; for( auto&p:w ) { p.x=(NT)p.x; p.y=(NT)p.y; } return w; }
	}
}
template<typename PL> void history( mon::Case& c )
{
	const bool closed=isC<PL>(); bool lat=c.rng.coin(3)==false; int nmin=closed?3:2; Poly v=rndPts(c,lat,nmin); inV(c,"v0",v); PL pl( mkv(v) ); bool exact=true; int steps=(int)c.rng.i(1,10); c.in("closed",closed);
	auto q=[&]{ verify(c,pl,exact,(int)c.rng.i(0,511)|(c.rng.coin(3)?256:0)); };
	q(); if( c.rng.coin() ) q();
	for( int k=0;k<steps;k++ )
	{
		int op=(int)c.rng.i(0,15); c.in("op",op); Poly cur=rdv(static_cast<const PL&>(pl).getPts());
		switch( op )
		{
			case 0: { v=rndPts(c,lat,nmin); inV(c,"set",v); if( c.rng.coin() ) pl.set(mkv(v)); else { auto w=mkv(v); std::list<Point2d> l(w.begin(),w.end()); pl.set(l); } break; }
			case 1: { LD a=lat?c.rng.i(-9,9):(LD)c.rng.d(-30,30), b=lat?c.rng.i(-9,9):(LD)c.rng.d(-30,30); c.in("t",a,b); if( c.rng.coin() ) pl.translate((NT)a,(NT)b); else pl.translate(std::make_pair((NT)a,(NT)b)); break; }
			case 2: { P d=lat?ipt(c.rng,9):P{(LD)c.rng.d(-30,30),(LD)c.rng.d(-30,30)}; inP(c,"m",d); if( c.rng.coin() ) pl.moveTo((NT)d.x,(NT)d.y); else pl.moveTo(mk(d)); break; }
			case 3: { Rotate r=c.rng.pick(std::vector<Rotate>{Rotate::CCW,Rotate::CW,Rotate::Full,Rotate::VMirror,Rotate::HMirror}); c.in("r",(int)r); if( c.rng.coin() ) pl.rotate(r); else pl.rotate(r,mk(ipt(c.rng,5))); break; }
			case 4: { v=rndPts(c,lat,nmin); inV(c,"assign",v); PL o(mkv(v)); if( c.rng.coin() ) { (void)o.length(); (void)o.isSimple(); (void)o.area(); } if( c.rng.coin() ) pl=o; else pl=std::move(o); break; }
			case 5: pl.minimize(); break;
			case 6: { PL o(pl); c.chk("copy-equal",o==pl); std::swap(o,pl); break; }
			case 7: { PL o(mkv(rndPts(c,lat,nmin))); (void)(o==pl); (void)(pl!=o); break; }
			case 8: { auto& r=pl.getPts(); size_t i=c.rng.i(0,r.size()-1); P d=lat?ipt(c.rng,15):P{(LD)c.rng.d(-15,15),(LD)c.rng.d(-15,15)}; bool bad=false; for( auto&p:cur ) if( ref::dist(p,d)<0.3 ) bad=true; if( !bad ) { inP(c,"edit",d); r[i]=mk(d); } break; }
			case 9: { Homogr H; LD a=lat?(LD)c.rng.i(0,3)*ref::PI/2:(LD)c.rng.d(-3,3); H.addRotation((NT)a).addTranslation(1,2); if( c.rng.coin() ) H.addScale(0.5); c.in("h",a); pl=H*pl; exact=false; break; }
			case 10: if constexpr( isC<PL>() ) { P a=ipt(c.rng,9),b=a+P{(LD)c.rng.i(1,9),(LD)c.rng.i(1,9)}; inP(c,"ra",a); inP(c,"rb",b); pl.set( FRect(mk(a),mk(b)) ); } break;
			case 11: if constexpr( isC<PL>() ) { int n=gen::num(c.rng,3,9,40,0); LD r=c.rng.d(0.5,10); c.in("rcp",r,n); pl.set((NT)r,n); exact=false; } break;
			case 12: if constexpr( isC<PL>() ) { P a,b,d; do { a=ipt(c.rng,9); b=ipt(c.rng,9); d=ipt(c.rng,9); } while( ref::crs(a,b,d)==0 ); inP(c,"pa",a); inP(c,"pb",b); inP(c,"pc",d); pl.setParallelogram(mk(a),mk(b),mk(d)); exact=false; } break;
			case 13: { translate(pl,(NT)1,(NT)-2); break; }
			case 14: { auto f=c.rng.coin(); if( f ) moveTo(pl,mk(ipt(c.rng,5))); else { pl.clear(); verify(c,pl,exact,511); pl.set(mkv(cur)); } break; }
			default: { // failing calls leave the object usable and unchanged
				Poly w{ {1,1} }; c.throws("set-1pt",[&]{ pl.set(mkv(w)); }); w={ {1,1},{1,1} }; c.throws("set-2-same",[&]{ pl.set(mkv(w)); }); w=cur; w.push_back(cur[0]); c.throws("set-closed-again",[&]{ pl.set(mkv(w)); }); w={ {1,1},{1,1},{2,2} }; c.throws("set-dup",[&]{ pl.set(mkv(w)); }); w={ {1,1},{2,0},{2,2},{1,1} }; c.throws("set-first-last",[&]{ pl.set(mkv(w)); }); c.chk("failed-set-unchanged",rdv(static_cast<const PL&>(pl).getPts())==cur); }
		}
		{ const PL& k2=pl; Poly w=rdv(k2.getPts()); bool bad=false; size_t n=w.size(); if( n<2 ) { c.chk("nb-points",false,"lost points"); return; } for( size_t i=0;i<n;i++ ) { if( ref::dist(w[i],w[(i+1)%n])<1e-3L||std::max(std::fabs(w[i].x),std::fabs(w[i].y))>2e3L ) bad=true; } if( bad ) break; }
		q(); if( c.rng.coin(3) ) q();
	}
	verify(c,pl,exact,511);
}
SECTION(closed,20000) { history<CPolyline>(c); }
SECTION(open,6000) { history<OPolyline>(c); }
// attributes do not depend on the starting vertex nor on the orientation
SECTION(invariance,10000)
{
	Poly v=rndPts(c,c.rng.coin(),3); inV(c,"v",v); int s=simpleDec(v,false); if( s<0 ) { bool ex=true; for( auto&p:v ) ex=ex&&p.x==std::round(p.x)&&p.y==std::round(p.y); if( ex ) s=simpleDec(v,true); } if( s<0 ) { c.skip("near-degenerate"); return; }
	auto cvx=-1; LD S=1; for( auto&p:v ) S=std::max(S,std::max(std::fabs(p.x),std::fabs(p.y)));
	CPolyline a(mkv(v)); bool undc=convexDec(v,false)<0; cvx=a.isConvex(); LD ar=a.area(), L=a.length();
	for( int k=0;k<4;k++ ) { Poly w=v; if( k&1 ) std::reverse(w.begin(),w.end()); std::rotate(w.begin(),w.begin()+c.rng.i(0,w.size()-1),w.end()); CPolyline b(mkv(w)); c.chk("simple",b.isSimple()==a.isSimple()); if( !undc ) c.chkf("convex",b.isConvex()==(cvx==1),[&](std::ostream&o){o<<b;}); c.near("area",b.area(),ar,1e-11L*S*S*v.size()); c.near("length",b.length(),L,1e-11L*S*v.size()); if( s==1&&ar>1e-3L*S ) c.chk("centroid",ref::dist(rd(b.centroid()),rd(a.centroid()))<1e-10L*S*S*S/ar); else if( !s ) c.throws("centroid-throws",[&]{(void)b.centroid();}); }
}
MON_MAIN
