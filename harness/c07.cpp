#include "h2.hpp"
using namespace gen;

// ---- reference: a shape is a set of lines, segments and circles ----
struct Piece { int k; P a,b; LD r=0; }; // 0 line through a,b; 1 segment; 2 circle
typedef std::vector<Piece> Shape;
static Shape shSeg( P a, P b ) { return { {1,a,b,0} }; }
static Shape shLine( P a, P b ) { return { {0,a,b,0} }; }
static Shape shCir( P c, LD r ) { return { {2,c,c,r} }; }
static Shape shPoly( const Poly& v, bool closed ) { Shape s; for( size_t i=0;i+(closed?0:1)<v.size();i++ ) s.push_back({1,v[i],v[(i+1)%v.size()],0}); return s; }
static Shape shRect( P a, P b ) { LD x0=std::min(a.x,b.x),x1=std::max(a.x,b.x),y0=std::min(a.y,b.y),y1=std::max(a.y,b.y); return shPoly({{x0,y0},{x1,y0},{x1,y1},{x0,y1}},true); }

// affine map between the reference's lattice and the coordinates given to the library ("awkward" runs: contacts that are only exact up to rounding)
static LD SC=1, OX=0, OY=0; static bool WEAK=false;
static Point2d mA( P p ) { return WEAK ? mk( P{SC*p.x+OX,SC*p.y+OY} ) : mk(p); }
static NT rA( LD r ) { return (NT)(WEAK?SC*r:r); }
static P unA( P p ) { return WEAK ? P{(p.x-OX)/SC,(p.y-OY)/SC} : p; }
struct Exp { Poly pts; bool undecided=false; Poly maybe; int pairs=0; };
static const LD MG=2e-6L;
// "on" judgement of a margin: >0 in, <0 out; exact zero is a hit when coordinates are exact, anything else tiny is undecided
struct J { bool in, und; };
static J judge( LD m, bool exact ) { if( std::fabs(m)<(exact?1e-15L:MG) ) return { true, !exact }; return { m>0, false }; }
static void addP( Exp& e, P p ) { for( auto&q:e.pts ) { LD d=ref::dist(p,q); if( d<1e-9L ) { e.pairs++; return; } if( d<1e-6L ) e.undecided=true; } e.pts.push_back(p); e.pairs++; }
static void inter( const Piece& A, const Piece& B, bool exact, Exp& e )
{
	if( A.k==2 && B.k!=2 ) { inter(B,A,exact,e); return; }
	if( A.k<2 && B.k<2 )
	{
		P u=A.b-A.a,v=B.b-B.a; LD cr=ref::crs(u,v), s=cr/(ref::norm(u)*ref::norm(v));
		if( std::fabs(s)<0.003L ) { if( !( exact && cr==0 ) && std::fabs(s)>1e-12L ) e.undecided=true; else if( std::fabs(s)<=1e-12L && !exact && A.k==1 && B.k==1 ) {} return; } // parallel pieces never meet in a point
		LD t=ref::crs(B.a-A.a,v)/cr, w=ref::crs(B.a-A.a,u)/cr; bool in=true; bool und=false; LD lu=ref::norm(u), lv=ref::norm(v);
		auto upd=[&]( LD m, bool ex ) { J j=judge(m,ex); in=in&&j.in; und=und||(j.und); };
		// exact predicates on lattices
		auto sg=[&]( P p, P q, P x ) { return ref::crs(p,q,x); };
		if( A.k==1 ) { LD s1=sg(B.a,B.b,A.a), s2=sg(B.a,B.b,A.b); if( exact && (s1==0||s2==0) ) {} else { upd(std::min(t,1-t)*lu,exact); } }
		if( B.k==1 ) { LD s1=sg(A.a,A.b,B.a), s2=sg(A.a,A.b,B.b); if( exact && (s1==0||s2==0) ) {} else { upd(std::min(w,1-w)*lv,exact); } }
		if( !in ) return; if( und ) { e.undecided=true; return; }
		P p=A.a+t*u; if( exact ) { if( A.k==1&&sg(B.a,B.b,A.a)==0 ) p=A.a; else if( A.k==1&&sg(B.a,B.b,A.b)==0 ) p=A.b; else if( B.k==1&&sg(A.a,A.b,B.a)==0 ) p=B.a; else if( B.k==1&&sg(A.a,A.b,B.b)==0 ) p=B.b; }
		addP(e,p); return;
	}
	if( A.k<2 )
	{
		P u=A.b-A.a; LD L=ref::norm(u), d=ref::crs(u,B.a-A.a)/L; LD m=B.r-std::fabs(d);
		P f=A.a+(ref::dot(B.a-A.a,u)/(L*L))*u; LD cr=ref::crs(u,B.a-A.a); bool tangent= exact ? cr*cr==B.r*B.r*L*L : std::fabs(m)<1e-5L;
		if( tangent ) { LD t=ref::dot(f-A.a,u)/(L*L); bool inside=A.k==0||( t*L>-1e-5L && (1-t)*L>-1e-5L ); if( !inside ) return; if( !exact ) { e.undecided=true; return; } e.maybe.push_back(f); return; }
		if( m<0 ) return;
		LD h=sqrtl(B.r*B.r-d*d)/L;
		LD ea=ref::dot(A.a-B.a,A.a-B.a)-B.r*B.r, eb=ref::dot(A.b-B.a,A.b-B.a)-B.r*B.r;
		LD t0=ref::dot(f-A.a,u)/(L*L);
		for( int s=-1;s<=1;s+=2 )
		{
			LD t=t0+s*h; P p=A.a+t*u;
			if( A.k==1 )
			{
				if( exact && ea==0 && std::fabs(t)*L<1e-9L ) { addP(e,A.a); continue; }
				if( exact && eb==0 && std::fabs(t-1)*L<1e-9L ) { addP(e,A.b); continue; }
				J j=judge(std::min(t,1-t)*L,exact); if( j.und ) { e.undecided=true; continue; } if( !j.in ) continue;
			}
			addP(e,p);
		}
		return;
	}
	// circle / circle
	P v=B.a-A.a; LD D2=ref::dot(v,v), D=sqrtl(D2), so=A.r+B.r, di=std::fabs(A.r-B.r);
	if( exact && (D2==so*so||D2==di*di) ) { if( D2==0 ) return; (WEAK?e.maybe:e.pts).push_back( A.a+(( A.r*A.r-B.r*B.r+D2 )/(2*D2))*v ); e.pairs++; return; }
	if( !exact && ( std::fabs(D-so)<1e-5L || std::fabs(D-di)<1e-5L ) ) { e.undecided=true; return; }
	if( D>so || D<di ) return;
	LD a=(A.r*A.r-B.r*B.r+D2)/(2*D), h=sqrtl(A.r*A.r-a*a); P m=A.a+(a/D)*v, n{-v.y/D,v.x/D}; addP(e,m+h*n); addP(e,m-h*n);
}
static Exp expected( const Shape& A, const Shape& B, bool exact ) { Exp e; for( auto&a:A ) for( auto&b:B ) inter(a,b,exact,e); return e; }

template<typename F> Poly got( mon::Case&, const detail::Intersect<detail::Inters_1,F>& x ) { Poly o; if( x() ) o.push_back(unA(rd(x.get()))); return o; }
template<typename F> Poly got( mon::Case& c, const detail::Intersect<detail::Inters_2,F>& x ) { Poly o; if( x() ) { auto q=x.get(); o={unA(rd(q.first)),unA(rd(q.second))}; c.chk("pair-order",!(o[1]<o[0])||std::fabs(o[0].x-o[1].x)<1e-9); } return o; }
template<typename F> Poly got( mon::Case& c, const detail::IntersectM<F>& x ) { auto v=rdv(x.get()); for( auto&p:v ) p=unA(p); for( size_t i=1;i<v.size();i++ ) c.chk("sorted",!(v[i]<v[i-1])||std::fabs(v[i].x-v[i-1].x)<1e-9); return v; }

template<typename R> void verdict( mon::Case& c, const std::string& k, const R& r, const Exp& e, bool poly, LD tol=1e-6L )
{
	Poly g=got(c,r); bool fin=true; for( auto&p:g ) fin=fin&&std::isfinite((double)p.x)&&std::isfinite((double)p.y);
	auto show=[&]( std::ostream& o ) { o<<"got "<<g.size()<<":"; for(auto&p:g) o<<str(p); o<<" expected "<<e.pts.size()<<":"; for(auto&p:e.pts) o<<str(p); if( !e.maybe.empty() ) { o<<" tangent:"; for(auto&p:e.maybe) o<<str(p); } };
	c.chkf(k+"-finite",fin,show); c.chkf(k+"-size",r.size()==g.size(),show); c.chkf(k+"-answer",r()==!g.empty(),show);
	std::vector<int> n(e.pts.size(),0); bool sound=true; int nm=0;
	for( auto&p:g ) { bool hit=false; for( size_t i=0;i<e.pts.size();i++ ) if( ref::dist(p,e.pts[i])<tol ) { n[i]++; hit=true; break; } for( auto&q:e.maybe ) if( !hit && ref::dist(p,q)<1e-4L ) { hit=true; nm++; } sound=sound&&hit; }
	c.chkf(k+"-sound",sound,show); bool comp=true,rep=true; for( int x: n ) { comp=comp&&x>=1; rep=rep&&x<=1; }
	if( !WEAK ) c.chkf(k+"-complete",comp,show);
	if( !poly ) c.chkf(k+"-no-repeat",rep,show); else c.chkf(k+"-count",(int)g.size()<=e.pairs+2*(int)e.maybe.size(),show);
	c.cls( k+"="+std::to_string(e.pts.size()>9?9:e.pts.size()) );
	if( g.empty() && k.find("LL")==0 ) c.throws(k+"-get-throws",[&]{ (void)r.get(); });
}

struct Gen { mon::Rng& r; bool lat; int R;
	P p() { return lat ? ipt(r,R) : P{(LD)r.d(-R,R),(LD)r.d(-R,R)}; }
	P far( P q, LD d ) { for(;;) { P x=p(); if( r.coin(5) ) x.x=q.x; else if( r.coin(5) ) x.y=q.y; if( ref::dist(x,q)>=d ) return x; } }
	LD rad() { return lat ? (LD)r.i(1,R) : (LD)r.d(0.5,R); }
	// a second point which often has something in common with the given set
	P near( const Poly& v ) { if( !v.empty() && r.coin(3) ) { P a=v[r.i(0,v.size()-1)]; if( r.coin() ) return a; P b=v[r.i(0,v.size()-1)]; P m=ref::mid(a,b); if( m.x==std::floor(m.x)&&m.y==std::floor(m.y) ) return m; return a; } return p(); }
};
static bool rectOK( P a, P b ) { return std::fabs(a.x-b.x)>0.3 && std::fabs(a.y-b.y)>0.3; }

template<typename A,typename B> void both( mon::Case& c, const std::string& k, const A& a, const B& b, const Exp& e, bool poly=false ) { verdict(c,k,a.intersects(b),e,poly); verdict(c,k+"(rev)",b.intersects(a),e,poly); }

static void pairBody( mon::Case& c, bool lat )
{
	Gen g{c.rng,lat,lat?(int)c.rng.i(2,9):(int)c.rng.i(3,60)};
	P a=g.p(),b=g.far(a,1),d=lat?g.near({a,b}):g.p(); P f; do { f=lat?g.near({a,b}):g.p(); } while( ref::dist(f,d)<1 );
	inP(c,"a",a); inP(c,"b",b); inP(c,"d",d); inP(c,"f",f); LD r1=g.rad(), r2=g.rad(); P c1=lat?g.near({a,b}):g.p(), c2=lat?g.near({c1,d}):g.p(); inP(c,"c1",c1); inP(c,"c2",c2); c.in("r",r1,r2);
	bool any=false; auto go=[&]( const Exp& e ) { any=any||!e.undecided; return !e.undecided; };
	Segment s1(mA(a),mA(b)), s2(mA(f),mA(d)); OSegment o1(mA(b),mA(a)), o2(mA(d),mA(f)); Line2d l1=mA(a)*mA(b), l2(mA(d),mA(f)); Circle k1(mA(c1),rA(r1)), k2(mA(c2),rA(r2));
	bool sameSeg=(a==d&&b==f)||(a==f&&b==d);
	{ Exp e=expected(shLine(a,b),shLine(d,f),lat); LD s=std::fabs(ref::crs(b-a,f-d))/ref::dist(a,b)/ref::dist(d,f); if( s>1e-12L && s<0.01L ) e.undecided=true; if( go(e) ) both(c,"LL",l1,l2,e); }
	{ Exp e=expected(shSeg(a,b),shSeg(d,f),lat); if( go(e) ) { if( sameSeg ) e=Exp(); both(c,"SS",s1,s2,e); both(c,"OO",o1,o2,e); both(c,"SO",s1,o2,e); both(c,"OS",o1,s2,e); both(c,"OrO",o1,-OSegment(o2),e); } }
	{ Exp e=expected(shLine(a,b),shSeg(d,f),lat); if( go(e) ) { both(c,"LS",l1,s2,e); both(c,"LO",l1,o2,e); } }
	{ Exp e=expected(shLine(a,b),shCir(c1,r1),lat); if( go(e) )
		{
			auto r=l1.intersects(k1); auto rr=k1.intersects(l1); if( e.maybe.empty() ) { verdict(c,"LC",r,e,false); verdict(c,"LC(rev)",rr,e,false); verdict(c,"LC(pt,r)",l1.intersects(mA(c1),rA(r1)),e,false); }
			else { verdict(c,"LC-tangent",r,e,true); verdict(c,"LC-tangent(rev)",rr,e,true); if( !WEAK&&(a.x==b.x||a.y==b.y) ) c.chk("LC-tangent-axis",r()); }
		}
	}
	{ Exp e=expected(shSeg(a,b),shCir(c1,r1),lat); if( go(e) ) { bool t=!e.maybe.empty(); both(c,t?"SC-tangent":"SC",s1,k1,e,t); both(c,t?"OC-tangent":"OC",o1,k1,e,t); } }
	{ Exp e=expected(shCir(c1,r1),shCir(c2,r2),lat); if( go(e) ) { if( c1==c2&&r1==r2 ) e=Exp(); both(c,"CC",k1,k2,e); } }
	if( !WEAK ) { // exact tangencies in arbitrary positions must never give anything but points on both
		LD th=c.rng.d(0,6.28); P u{(LD)cosl(th),(LD)sinl(th)}; LD sg=c.rng.coin()?r1+r2:std::fabs(r1-r2); P cc=c1+sg*u; Circle kt(mA(cc),rA(r2)); if( !(kt==k1) && sg>1e-3 ) for( int w=0;w<2;w++ ) { auto r= w?kt.intersects(k1):k1.intersects(kt); Poly q=rdv(r.get()); P rc=rd(kt.center()); for( auto&p:q ) c.chkf("CC-tangent-any",ref::dist(p,c1+( sg==r1+r2?r1:(r1>r2?r1:-r1))*u)<2e-3L*(1+r1+r2)&&std::fabs(ref::dist(p,rc)-r2)<1e-5L*(1+r1+r2),[&](std::ostream&o){o<<str(p);}); }
		LD rn=r1*(1+(LD)c.rng.d(-1,1)*std::pow(10.L,-(LD)c.rng.i(5,12))); if( rn!=r1 ) { Circle kn(mA(c1),(NT)rn); c.chk("CC-concentric",!k1.intersects(kn)()&&!kn.intersects(k1)()); }
	}
	if( rectOK(a,b) )
	{
		FRect R1(mA(a),mA(b)); Shape S=shRect(a,b);
		{ Exp e=expected(S,shLine(d,f),lat); if( go(e) ) both(c,"RL",R1,l2,e); }
		{ Exp e=expected(S,shLine(d,f),lat); if( go(e) ) verdict(c,"RL(pts)",l2.intersects(mA(b),mA(a)),e,false); }
		{ Exp e=expected(S,shSeg(d,f),lat); if( go(e) ) { both(c,"RS",R1,s2,e); both(c,"RO",R1,o2,e); } }
		{ Exp e=expected(S,shCir(c2,r2),lat); if( go(e) ) { bool t=!e.maybe.empty(); both(c,t?"RC-tangent":"RC",R1,k2,e,t); } }
		if( rectOK(d,f) ) { FRect R2(mA(f),mA(d)); Exp e=expected(S,shRect(d,f),lat); if( go(e) ) { if( R1==R2 ) e=Exp(); both(c,"RR",R1,R2,e); } }
	}
	if( !any ) c.skip("near-degenerate");
}
SECTION(awkward,20000) { WEAK=true; SC=c.rng.pick(std::vector<LD>{0.1L,0.3L,1.7L,1/3.L,0.07L}); OX=c.rng.coin()?0:(LD)c.rng.d(-3,3); OY=c.rng.coin()?0:(LD)c.rng.d(-3,3); SC=(double)SC; c.in("scale",SC,OX,OY); pairBody(c,true); WEAK=false; }
SECTION(lattice,30000) { pairBody(c,true); }
SECTION(generic,20000) { pairBody(c,false); }

static void polyBody( mon::Case& c, bool lat )
{
	Gen g{c.rng,lat,lat?(int)c.rng.i(3,9):(int)c.rng.i(3,60)}; int n=gen::num(c.rng,2,8); Poly v;
	while( (int)v.size()<n ) { P p=g.p(); if( v.empty()||ref::dist(p,v.back())>0.6 ) v.push_back(p); } while( ref::dist(v[0],v.back())<0.6 ) v.pop_back(); if( v.size()<2 ) { c.skip("short"); return; } bool hasC=v.size()>2;
	inV(c,"v",v); P a=lat?g.near(v):g.p(),b; do { b=lat?g.near(v):g.p(); } while( ref::dist(a,b)<1 ); inP(c,"a",a); inP(c,"b",b); LD r=g.rad(); c.in("r",r);
	Poly w; int m=(int)c.rng.i(2,6); while( (int)w.size()<m ) { P p=lat?g.near(v):g.p(); if( w.empty()||ref::dist(p,w.back())>0.6 ) w.push_back(p); } while( ref::dist(w[0],w.back())<0.6 ) w.pop_back(); if( w.size()<2 ) { c.skip("short"); return; } bool hasC2=w.size()>2; inV(c,"w",w);
	bool any=false; auto go=[&]( const Exp& e ) { any=any||!e.undecided; return !e.undecided; };
	auto all=[&]( const std::string& k, const auto& pl, const Shape& S, bool dup ) {
		(void)dup;
		{ Exp e=expected(S,shLine(a,b),lat); if( go(e) ) both(c,k+"L",pl,Line2d(mk(a),mk(b)),e,true); }
		{ Exp e=expected(S,shSeg(a,b),lat); for( auto&x:S ) if( (x.a==a&&x.b==b)||(x.a==b&&x.b==a) ) e.undecided=e.undecided; if( go(e) ) { both(c,k+"S",pl,Segment(mk(a),mk(b)),e,true); both(c,k+"O",pl,OSegment(mk(b),mk(a)),e,true); } }
		{ Exp e=expected(S,shCir(a,r),lat); if( go(e) ) both(c,k+"C",pl,Circle(mk(a),(NT)r),e,true); }
		if( rectOK(a,b) ) { Exp e=expected(S,shRect(a,b),lat); if( go(e) ) both(c,k+"R",pl,FRect(mk(a),mk(b)),e,true); }
		{ Exp e=expected(S,shPoly(w,false),lat); if( go(e) ) both(c,k+"Po",pl,OPolyline(mkv(w)),e,true); }
		if( hasC2 ) { Exp e=expected(S,shPoly(w,true),lat); if( go(e) ) both(c,k+"Pc",pl,CPolyline(mkv(w)),e,true); }
	};
	all("Po",OPolyline(mkv(v)),shPoly(v,false),false);
	if( hasC ) { Poly q=v; if( c.rng.coin() ) std::reverse(q.begin(),q.end()); std::rotate(q.begin(),q.begin()+c.rng.i(0,q.size()-1),q.end()); all("Pc",CPolyline(mkv(q)),shPoly(v,true),false); }
	if( !any ) c.skip("near-degenerate");
}
SECTION(polyLattice,12000) { polyBody(c,true); }
SECTION(polyGeneric,8000) { polyBody(c,false); }
MON_MAIN
