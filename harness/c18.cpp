#include "h2.hpp"
#include <list>
#include <utility>
#include <array>
using namespace gen;
using ref::PI;
// ---- raw parameters of one object of each kind ----
struct Raw { P p, q; P l1,l2; P s1,s2; P c; LD r; P r1,r2; Poly cp, op; P e; LD a,b,th; };
static void jitter( mon::Case& c, P& p, LD d ) { p.x+=c.rng.d(-1,1)*d; p.y+=c.rng.d(-1,1)*d; }
static Raw perturbed( mon::Case& c, const Raw& x, LD d ) { Raw r=x; for( P* p: {&r.p,&r.q,&r.l1,&r.l2,&r.s1,&r.s2,&r.c,&r.r1,&r.r2,&r.e} ) jitter(c,*p,d); for( auto&p:r.cp ) jitter(c,p,d); for( auto&p:r.op ) jitter(c,p,d); r.r+=c.rng.d(-1,1)*d; r.a+=c.rng.d(0,1)*d; r.b-=c.rng.d(0,1)*d; r.th+=c.rng.d(-1,1)*d*0.1L; return r; }
static LD fl( LD v ) { return (LD)(float)v; }
static P fl( P p ) { return {fl(p.x),fl(p.y)}; }
static Raw rndRaw( mon::Case& c )
{
	Raw r; auto g=[&]{ return fl(P{c.rng.d(-20,20),c.rng.d(-20,20)}); }; auto g2=[&]( P a ) { for(;;) { P b=g(); if( std::fabs(a.x-b.x)>1&&std::fabs(a.y-b.y)>1 ) return b; } };
	r.p=g(); r.q=g2(r.p); r.l1=g(); r.l2=g2(r.l1); r.s1=g(); r.s2=g2(r.s1); r.c=g(); r.r=fl(c.rng.d(1,15)); r.r1=g(); r.r2=g2(r.r1); for( int k=0;k<20;k++ ) { r.cp=c.rng.coin()?convexPoly(c.rng,(int)c.rng.i(3,9),g(),(double)c.rng.d(3,12)):starPoly(c.rng,(int)c.rng.i(4,9),g(),3,15); for( auto&p:r.cp ) p=fl(p); LD m=1e9L; for( size_t i=0;i<r.cp.size();i++ ) m=std::min(m,ref::dist(r.cp[i],r.cp[(i+1)%r.cp.size()])); if( r.cp.size()>2&&m>0.01L ) break; } int n=(int)c.rng.i(2,7); r.op.push_back(g()); for( int i=1;i<n;i++ ) r.op.push_back(g2(r.op.back())); if( r.op.front()==r.op.back() ) r.op.pop_back();
	r.e=g(); r.b=fl(c.rng.d(2,8)); r.a=fl(r.b*c.rng.d(1.2,2.5)); r.th=fl(c.rng.d(-3,3)); return r;
}
static void show( mon::Case& c, const char* n, const Raw& r ) { inP(c,n,r.p); inP(c,"q",r.q); inP(c,"l1",r.l1); inP(c,"l2",r.l2); inP(c,"s1",r.s1); inP(c,"s2",r.s2); inP(c,"c",r.c); c.in("r",r.r); inP(c,"r1",r.r1); inP(c,"r2",r.r2); inV(c,"cp",r.cp); inV(c,"op",r.op); inP(c,"e",r.e); c.in("abth",r.a,r.b,r.th); }
template<typename F> struct Objs
{
	Point2d_<F> p,q; Line2d_<F> l; Segment_<F> s; OSegment_<F> o; Circle_<F> c; FRect_<F> r; CPolyline_<F> cp; OPolyline_<F> op; Ellipse_<F> e;
	static std::vector<Point2d_<F>> V( const Poly& v ) { std::vector<Point2d_<F>> w; for( auto&x:v ) w.push_back(Point2d_<F>((F)x.x,(F)x.y)); return w; }
	static Point2d_<F> M( P x ) { return Point2d_<F>((F)x.x,(F)x.y); }
	Objs( const Raw& x ): p(M(x.p)), q(M(x.q)), l(M(x.l1),M(x.l2)), s(M(x.s1),M(x.s2)), o(M(x.s1),M(x.s2)), c(M(x.c),(F)x.r), r(M(x.r1),M(x.r2)), cp(V(x.cp)), op(V(x.op)), e(M(x.e),(F)x.a,(F)x.b,(F)x.th) {}
};
// ---- results as lists of numbers ----
typedef std::vector<LD> R;
inline void add( R& r, bool b ) { r.push_back(b?1e6L:0); }
inline void add( R& r, double v ) { r.push_back(v); }
inline void add( R& r, float v ) { r.push_back(v); }
inline void add( R& r, long double v ) { r.push_back(v); }
template<typename F> void add( R& r, const Point2d_<F>& p ) { r.push_back(p.getX()); r.push_back(p.getY()); }
template<typename F> void add( R& r, const Line2d_<F>& l ) { auto a=l.get(); LD n=std::hypot((LD)a[0],(LD)a[1]); P d{-(LD)a[1]/n,(LD)a[0]/n}; r.push_back(d.x*d.x-d.y*d.y); r.push_back(2*d.x*d.y); r.push_back(std::fabs(a[2])/n); } // unoriented direction
template<typename S,typename F> void add( R& r, const base::SegVec<S,F>& s ) { add(r,s.getPts().first); add(r,s.getPts().second); }
template<typename F> void add( R& r, const Circle_<F>& c ) { add(r,c.center()); add(r,c.radius()); }
template<typename F> void add( R& r, const FRect_<F>& x ) { auto p=x.getPts(); add(r,p.first); add(r,p.second); }
template<typename T,typename F> void add( R& r, const base::PolylineBase<T,F>& x ) { r.push_back(1e5L*x.size()); for( auto&p: x.getPts() ) add(r,p); }
template<typename F> void add( R& r, const Ellipse_<F>& x ) { add(r,x.getCenter()); add(r,x.getMajMin().first); add(r,x.getMajMin().second); r.push_back(cosl(2*x.angle())); r.push_back(sinl(2*x.angle())); }
template<typename F> std::vector<Point2d_<F>> lst( const std::pair<Point2d_<F>,Point2d_<F>>& p ) { return {p.first,p.second}; }
template<typename F> std::vector<Point2d_<F>> lst( const std::vector<Point2d_<F>>& p ) { return p; }
template<typename T> void addI( R& r, const T& i ) { r.push_back(i()?1e6L:0); if( i() ) { std::vector<std::pair<LD,LD>> v; for( auto&p: lst(i.get()) ) v.push_back({p.getX(),p.getY()}); r.push_back(1e5L*v.size()); std::sort(v.begin(),v.end()); for( auto&p:v ) { r.push_back(p.first); r.push_back(p.second); } } }
template<typename T> void add1( R& r, const T& i ) { r.push_back(i()?1e6L:0); if( i() ) add(r,i.get()); }
template<typename T> void addV( R& r, const T& v ) { r.push_back(1e5L*v.size()); std::vector<std::pair<LD,LD>> w; for( auto&p: v ) w.push_back({p.getX(),p.getY()}); std::sort(w.begin(),w.end()); for( auto&p:w ) { r.push_back(p.first); r.push_back(p.second); } }
struct Op1 { template<typename A,typename B> R operator()( int k, const A& a, const B& b ) const
{	R r;
	switch( k )
	{
		case 0: add(r,a.p.distTo(b.q)); break;
		case 1: add(r,a.p.distTo(b.l)); add(r,b.l.distTo(a.p)); break;
		case 2: add(r,b.s.distTo(a.p)); break;
		case 3: add(r,a.p.isInside(b.c)); add(r,a.p.isInside(b.r)); add(r,a.p.isInside(b.cp)); add(r,a.p.isInside(b.e)); break;
		case 4: add(r,a.l.getAngle(b.l)); add(r,a.l.isParallelTo(b.l)); break;
		case 5: add(r,a.s.getAngle(b.s)); add(r,a.s.isParallelTo(b.s)); break;
		case 6: add1(r,a.l.intersects(b.s)); break;
		case 7: addI(r,a.l.intersects(b.c)); break;
		case 8: addI(r,a.l.intersects(b.r)); break;
		case 9: addI(r,a.l.intersects(b.cp)); addI(r,a.l.intersects(b.op)); break;
		case 10: add1(r,a.s.intersects(b.s)); add1(r,a.s.intersects(b.l)); break;
		case 11: addI(r,a.s.intersects(b.c)); addI(r,a.c.intersects(b.s)); break;
		case 12: addI(r,a.s.intersects(b.r)); addI(r,a.r.intersects(b.s)); break;
		case 13: addI(r,a.s.intersects(b.cp)); addI(r,a.s.intersects(b.op)); break;
		case 14: addI(r,a.c.intersects(b.c)); addI(r,a.c.intersects(b.l)); break;
		case 15: addI(r,a.c.intersects(b.r)); addI(r,a.r.intersects(b.c)); break;
		case 16: addI(r,a.cp.intersects(b.c)); addI(r,a.op.intersects(b.c)); break;
		case 17: addI(r,a.r.intersects(b.r)); break;
		case 18: addI(r,a.cp.intersects(b.cp)); addI(r,a.op.intersects(b.cp)); break;
		case 19: add(r,a.c.isInside(b.c)); add(r,a.s.isInside(b.c)); add(r,a.r.isInside(b.c)); add(r,a.cp.isInside(b.c)); break;
		case 20: add(r,a.c.isInside(b.r)); add(r,a.s.isInside(b.r)); add(r,a.r.isInside(b.r)); add(r,a.cp.isInside(b.r)); add(r,a.op.isInside(b.r)); break;
		case 21: add(r,a.c.isInside(b.cp)); add(r,a.s.isInside(b.cp)); add(r,a.r.isInside(b.cp)); add(r,a.cp.isInside(b.cp)); break;
		case 22: add(r,Segment_<NT>(a.p,b.q)); add(r,OSegment_<NT>(a.p,b.q)); add(r,Segment_<NT>(std::make_pair(a.p,b.q))); break;
		case 23: { Circle_<NT> k(a.p,b.q); add(r,k); Circle_<NT> m(b.p,(double)a.c.radius()); add(r,m); k.set(b.q,a.p); add(r,k); break; }
		case 24: add(r,getBB(a.cp,b.cp)); add(r,getBB(a.r,b.c)); add(r,getBB(a.s,b.op)); break;
		case 25: { auto x=a.p; x.translate(b.q.getX(),b.q.getY()); add(r,x); auto m=a.cp; m.translate(b.q.getX(),b.q.getY()); add(r,m); auto k=a.c; k.translate(b.c.radius(),b.c.radius()); add(r,k); auto y=a.r; y.translate(b.q.getX(),b.q.getY()); add(r,y); auto s=a.s; s.moveTo(b.q); add(r,s); break; }
		case 26: add(r,a.l.getOrthogLine(b.p)); add(r,a.l.getParallelLine(b.p)); break;
		case 27: add(r,OSegment_<NT>(b.o).getPointSide(Point2d_<NT>(a.p))==PointSide::Left); break;
		case 28: { Homogr H; H.setRotation(0.5); H.addTranslation(3.,4.); (void)a; add(r,H*b.p); add(r,H*b.s); add(r,H*b.cp); add(r,H*b.l); add(r,H*b.o); break; }
		case 29: { Homogr_<typename std::decay<decltype(a.p)>::type::FType> H; H.setScale(0.5,2.); H.addTranslation(1.,2.); add(r,H*b.p); add(r,H*b.s); add(r,H*b.cp); add(r,H*b.l); add(r,H*b.e); break; }
		case 30: add(r,a.e.pointIsInside(b.p)); break;
		case 31: { P x=rd(Point2d_<NT>(a.p)),y=rd(Point2d_<NT>(b.q)),z=rd(Point2d_<NT>(a.q)),w=rd(Point2d_<NT>(b.p)); auto fat=[]( P u, P v, P t ) { LD m=std::max({ref::dist(u,v),ref::dist(v,t),ref::dist(t,u)}); return std::fabs(ref::crs(u,v,t))>0.05L*m*m; }; if( fat(x,y,z) ) { Circle_<NT> k; k.set(a.p,b.q,a.q); add(r,k); } else r.push_back(-1); if( fat(y,w,x) ) { Circle_<NT> m(b.q,b.p,a.p); add(r,m); } else r.push_back(-1); break; }
		case 32: { Homogr_<typename std::decay<decltype(a.p)>::type::FType> H; H.setRotation(0.7); H.addTranslation(1.5,-2.); H.addScale(0.5,1.5); Homogr_<typename std::decay<decltype(b.p)>::type::FType> G(H), K; K=H; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) add(r,G.value(i,j)); add(r,G*b.p); add(r,K*b.l); add(r,K*b.cp); add(r,H*(G*a.p)); break; }
		case 33: add(r,areCollinear(a.p,b.p,a.q)); add(r,areParallel(a.s,b.l)); add(r,areParallel(b.l,a.s)); add(r,a.s.isParallelTo(b.o)); break;
		default: break;
	}
	return r;
} };
static const int NOPS=34;
static bool close( const R& a, const R& b, LD tol, LD& w ) { w=1e300L; if( a.size()!=b.size() ) return false; w=0; for( size_t i=0;i<a.size();i++ ) { LD d=std::fabs(a[i]-b[i]); if( !(d<=1e300L) ) { w=1e300L; return false; } w=std::max(w,d); } return w<=tol; }
static std::string str( const R& r ) { std::ostringstream o; o<<std::setprecision(17); for( auto v:r ) o<<v<<" "; return o.str(); }
template<typename F1,typename F2> void mixed( mon::Case& c, const Raw& x, const Raw& y, int k, const R& exact, const R& var, bool shape, LD S )
{
	LD u=std::max<LD>(std::max<LD>(std::numeric_limits<F1>::epsilon(),std::numeric_limits<F2>::epsilon()),std::numeric_limits<NT>::epsilon()); Op1 op; Objs<F1> a(x); Objs<F2> b(y); R g=op(k,a,b); (void)shape;
	bool ok=g.size()==exact.size(); size_t w=0; LD dev=0; if( ok ) for( size_t i=0;i<g.size();i++ ) { LD d=std::fabs(g[i]-exact[i]), t=u*(S*100+var[i]*1e6L); if( !(d<=t) ) { ok=false; w=i; dev=d; break; } }
	c.chkf("op"+std::to_string(k),ok,[&](std::ostream&o){ o<<"types "<<getString(a.p.dtype())<<","<<getString(b.p.dtype())<<" result "<<str(g)<<" internal type "<<str(exact)<<" item "<<w<<" off by "<<dev; });
}
SECTION(mixed_types,9000)
{
	Raw x=rndRaw(c), y=rndRaw(c); int k=(int)(c.idx%NOPS); c.in("op",k); show(c,"A",x); show(c,"B",y); c.cls("op"+std::to_string(k)); Op1 op; R e=op(k,Objs<NT>(x),Objs<NT>(y)); LD S=1; for( auto v:e ) if( v<1e4L ) S=std::max(S,std::fabs(v)); S=std::max(S,(LD)40);
	if( k>=6&&k<=18 ) { Poly vx; for( const Raw* q: {&x,&y} ) { vx.insert(vx.end(),q->cp.begin(),q->cp.end()); vx.insert(vx.end(),q->op.begin(),q->op.end()); for( P p: {q->r1,q->r2,P{q->r1.x,q->r2.y},P{q->r2.x,q->r1.y},q->s1,q->s2} ) vx.push_back(p); } for( size_t i=0;i+1<e.size();i++ ) for( auto&p:vx ) if( ref::dist(p,P{e[i],e[i+1]})<2e-4L ) { c.skip("at a vertex"); return; } }
	R var(e.size(),0); LD D=1e-4L; for( int i=0;i<8;i++ ) { R p; try { p=op(k,Objs<NT>(perturbed(c,x,D)),Objs<NT>(perturbed(c,y,D))); } catch( const std::runtime_error& ) { c.skip("unstable"); return; } LD w; if( !close(e,p,1,w) ) { c.skip("unstable"); return; } for( size_t j=0;j<e.size();j++ ) var[j]=std::max(var[j],std::fabs(e[j]-p[j])); }
	mixed<float,double>(c,x,y,k,e,var,false,S); mixed<double,float>(c,x,y,k,e,var,false,S); mixed<float,long double>(c,x,y,k,e,var,false,S); mixed<long double,float>(c,x,y,k,e,var,false,S); mixed<double,long double>(c,x,y,k,e,var,false,S); mixed<long double,double>(c,x,y,k,e,var,false,S); mixed<float,float>(c,x,y,k,e,var,false,S); mixed<long double,long double>(c,x,y,k,e,var,false,S);
}
// ---- conversions ----
template<typename F> LD rnd( LD v ) { return (LD)(F)v; }
template<typename F1,typename F2> void conv( mon::Case& c, const Raw& r0, bool wide )
{
	Raw x=r0; Objs<F1> a(x); c.cls(std::string(getString(a.p.dtype()))+">"+getString(Objs<F2>(x).p.dtype())); auto cv=[]( F1 v ) { return (LD)(F2)v; };
	auto sameP=[&]( const Point2d_<F2>& g, const Point2d_<F1>& s ) { return (LD)g.getX()==cv((F1)s.getX()) && (LD)g.getY()==cv((F1)s.getY()); }; (void)wide;
	{ Point2d_<F2> g(a.p), h; h=a.p; c.chk("point",sameP(g,a.p)&&sameP(h,a.p)); Point2d_<F2> inf(Point2d_<F1>((F1)3,(F1)4,(F1)0)); c.chk("point-at-infinity",inf.isInf()&&std::fabs((LD)inf.get()[0]*4-(LD)inf.get()[1]*3)<1e-5L); Point2d_<F1> in(a.p); Point2d_<F2> z; z=Point2d_<F2>(in); c.chk("point-chain",sameP(z,a.p)); }
	{ Line2d_<F2> g(a.l), h; h=a.l; auto s=a.l.get(), t=g.get(), t2=h.get(); for( int i=0;i<3;i++ ) c.chk("line",(LD)t[i]==cv(s[i])&&(LD)t2[i]==cv(s[i])); }
	{ Segment_<F2> g(a.s), h; h=a.s; c.chk("segment",sameP(g.getPts().first,a.s.getPts().first)&&sameP(g.getPts().second,a.s.getPts().second)&&g==h); Segment_<F2> k(a.o); c.chk("segment-from-oriented",k==g); }
	{ OSegment_<F2> g(a.o), h; h=a.o; c.chk("osegment",sameP(g.getPts().first,a.o.getPts().first)&&sameP(g.getPts().second,a.o.getPts().second)&&sameP(h.getPts().first,a.o.getPts().first)&&sameP(h.getPts().second,a.o.getPts().second)); OSegment_<F1> rv(a.o); -rv; }
	{ Circle_<F2> g(a.c), h; h=a.c; c.chk("circle",sameP(g.center(),a.c.center())&&sameP(h.center(),a.c.center())&&(LD)g.radius()==cv(a.c.radius())&&(LD)h.radius()==cv(a.c.radius())); }
	{ FRect_<F2> g(a.r), h; h=a.r; auto s=a.r.getPts(), t=g.getPts(), t2=h.getPts(); c.chk("rect",sameP(t.first,s.first)&&sameP(t.second,s.second)&&sameP(t2.first,s.first)&&sameP(t2.second,s.second)); }
	{ // attributes computed on the source, or cached in the target, must not leak into the copy
		const auto& cs=a.cp; bool warm=c.rng.coin(); if( warm ) { (void)cs.area(); (void)cs.length(); (void)cs.isSimple(); (void)cs.centroid(); }
		CPolyline_<F2> g(a.cp), h(std::vector<Point2d_<F2>>{Point2d_<F2>(0,0),Point2d_<F2>(900,0),Point2d_<F2>(0,700)}); (void)h.area(); (void)h.length(); (void)h.centroid(); (void)h.isSimple(); h=a.cp; const auto& cg=g; const auto& chh=h; bool ok=cg.size()==cs.size()&&chh.size()==cs.size(); if( ok ) for( size_t i=0;i<cs.size();i++ ) ok=ok&&sameP(cg.getPts()[i],cs.getPts()[i])&&sameP(chh.getPts()[i],cs.getPts()[i]); c.chk("cpolyline",ok);
		LD u=std::max<LD>(std::numeric_limits<F1>::epsilon(),std::numeric_limits<F2>::epsilon())*1e4L; LD A=ref::area2(x.cp)/2, L=ref::perim(x.cp,true); P ce=ref::centroid(x.cp); if( cs.isSimple() ) { c.near("cpolyline-area",cg.area(),std::fabs(A),u*(L*L)); c.near("cpolyline-area=",chh.area(),std::fabs(A),u*L*L); LD sl=L*L/std::fabs(A); c.chk("cpolyline-centroid",ref::dist(rd(cg.centroid()),ce)<=u*(40+L)*sl&&ref::dist(rd(chh.centroid()),ce)<=u*(40+L)*sl); } c.near("cpolyline-length",cg.length(),L,u*L); c.near("cpolyline-length=",chh.length(),L,u*L); c.chk("closed",cg.isClosed()&&chh.isClosed()&&cg.nbSegs()==cs.nbSegs()); }
	{ OPolyline_<F2> g(a.op), h(std::vector<Point2d_<F2>>{Point2d_<F2>(0,0),Point2d_<F2>(900,0)}); (void)h.length(); h=a.op; const auto& cg=g; const auto& chh=h; const auto& cs=a.op; bool ok=cg.size()==cs.size()&&chh.size()==cs.size(); if( ok ) for( size_t i=0;i<cs.size();i++ ) ok=ok&&sameP(cg.getPts()[i],cs.getPts()[i])&&sameP(chh.getPts()[i],cs.getPts()[i]); c.chk("opolyline",ok&&!cg.isClosed()); LD L=ref::perim(x.op,false); LD u=std::max<LD>(std::numeric_limits<F1>::epsilon(),std::numeric_limits<F2>::epsilon())*1e3L; c.near("opolyline-length",chh.length(),L,u*L); c.near("opolyline-length2",cg.length(),L,u*L); if( x.op.size()>2 ) { CPolyline_<F2> k(a.op); const auto& ck=k; bool o2=ck.size()==cs.size(); if( o2 ) for( size_t i=0;i<cs.size();i++ ) o2=o2&&sameP(ck.getPts()[i],cs.getPts()[i]); c.chk("closed-from-open",o2); } }
	{ CPolyline_<F2> g(a.r); c.chk("cpolyline-from-rect",std::as_const(g).size()==4); }
	{ Ellipse_<F2> g(a.e), h; (void)h.area(); h=a.e; LD u=std::max<LD>(std::max<LD>(std::numeric_limits<F1>::epsilon(),std::numeric_limits<F2>::epsilon()),std::numeric_limits<NT>::epsilon())*40*40*(1+ref::dot(x.e,x.e)/(x.b*x.b)); for( auto* z: {&g,&h} ) c.chk("ellipse",ref::dist(rd(z->getCenter()),x.e)<u*20&&std::fabs((LD)z->getMajMin().first-x.a)<u*20&&std::fabs((LD)z->getMajMin().second-x.b)<u*20&&std::fabs(sinl((LD)z->angle()-x.th))<u*20); }
	{ std::vector<Point2d_<F1>> v=Objs<F1>::V(x.cp); std::list<Point2d_<F1>> li(v.begin(),v.end()); CPolyline_<F2> g(v), h(li); CPolyline_<F2> k; k.set(v); c.chk("cpolyline-from-other-points",std::as_const(g).size()==v.size()&&std::as_const(g).getPts()==std::as_const(h).getPts()&&std::as_const(g).getPts()==std::as_const(k).getPts()&&sameP(std::as_const(g).getPts().back(),v.back())); Segment_<F2> s(a.s.getPts()); c.chk("segment-from-other-pair",s==Segment_<F2>(a.s)); FRect_<F2> r(a.r.getPts()); c.chk("rect-from-other-pair",r==FRect_<F2>(a.r)); Circle_<F2> q(a.p,a.c.radius()); c.chk("circle-from-other",sameP(q.center(),a.p)&&(LD)q.radius()==cv(a.c.radius())); }
	if( wide ) { c.chk("wide-and-back",Objs<F1>(x).p==Point2d_<F1>(Point2d_<F2>(a.p))&&Segment_<F1>(Segment_<F2>(a.s))==a.s&&OSegment_<F1>(OSegment_<F2>(a.o))==a.o&&Circle_<F1>(Circle_<F2>(a.c))==a.c&&FRect_<F1>(FRect_<F2>(a.r))==a.r&&Line2d_<F1>(Line2d_<F2>(a.l))==a.l&&CPolyline_<F1>(CPolyline_<F2>(a.cp))==a.cp&&OPolyline_<F1>(OPolyline_<F2>(a.op))==a.op); }
}
SECTION(conversions,3000)
{
	Raw x=rndRaw(c); bool far=c.rng.coin(4); if( far ) { P t{(LD)(float)c.rng.d(-300,300),(LD)(float)c.rng.d(-300,300)}; for( P*p: {&x.p,&x.q,&x.l1,&x.l2,&x.s1,&x.s2,&x.c,&x.r1,&x.r2} ) *p=fl(*p+t); c.cls("far"); } show(c,"x",x);
	conv<float,double>(c,x,true); conv<float,long double>(c,x,true); conv<double,long double>(c,x,true); conv<double,float>(c,x,false); conv<long double,float>(c,x,false); conv<long double,double>(c,x,false); conv<float,float>(c,x,true); conv<double,double>(c,x,true);
}
// ---- types: what is stored and what is returned ----
template<typename F> void types( mon::Case& c, Dtype t, std::pair<int,int> sz, const char* name )
{
	auto one=[&]( const auto& o, const char* n ) { c.chk(std::string("dtype-")+n,o.dtype()==t&&dtype(o)==t&&std::string(getString(dtype(o)))==name); c.chk(std::string("dsize-")+n,o.dsize()==sz&&dsize(o)==sz); c.chk(std::string("ftype-")+n,std::is_same_v<typename std::decay_t<decltype(o)>::FType,F>); };
	Raw x=rndRaw(c); Objs<F> a(x); one(a.p,"point"); one(a.l,"line"); one(a.s,"segment"); one(a.o,"osegment"); one(a.c,"circle"); one(a.r,"rect"); one(a.cp,"cpolyline"); one(a.op,"opolyline"); one(a.e,"ellipse"); Homogr_<F> H; c.chk("dtype-homogr",H.dtype()==t&&dtype(H)==t&&H.dsize()==sz);
	#define RET(e) std::is_same_v<std::decay_t<decltype(e)>,NT>
	c.chk("return-internal-type",RET(a.p.distTo(a.q))&&RET(a.p.distTo(a.l))&&RET(a.l.getAngle(a.l))&&RET(a.s.length())&&RET(a.o.length())&&RET(a.c.area())&&RET(a.c.length())&&RET(a.r.area())&&RET(a.r.length())&&RET(a.r.width())&&RET(a.cp.area())&&RET(a.cp.length())&&RET(a.op.length())&&RET(a.e.area())&&RET(a.e.length())&&RET(a.e.angle())&&RET(a.s.getAngle(a.s))&&RET(H.determ())&&RET(a.p.getX()));
	c.chk("storage-type",std::is_same_v<std::decay_t<decltype(a.c.radius())>,F>&&std::is_same_v<std::decay_t<decltype(a.l.get()[0])>,F>&&std::is_same_v<std::decay_t<decltype(H.value(0,0))>,F>&&std::is_same_v<std::decay_t<decltype(H*a.p)>,Point2d_<F>>&&std::is_same_v<std::decay_t<decltype(a.s.getPts().first)>,Point2d_<F>>);
}
SECTION(types,30) { c.in("idx",c.idx); types<float>(c,Dtype::Float,{24,7},"Float"); types<double>(c,Dtype::Double,{53,10},"Double"); types<long double>(c,Dtype::LongDouble,{64,63},"LongDouble"); c.chk("default-types",std::is_same_v<Point2d,Point2d_<NT>>&&std::is_same_v<CPolyline,CPolyline_<NT>>&&std::is_same_v<Ellipse,Ellipse_<NT>>&&std::is_same_v<Homogr,Homogr_<NT>>&&std::is_same_v<Circle,Circle_<NT>>&&std::is_same_v<FRect,FRect_<NT>>&&std::is_same_v<Segment,Segment_<NT>>&&std::is_same_v<OSegment,OSegment_<NT>>&&std::is_same_v<Line2d,Line2d_<NT>>&&std::is_same_v<OPolyline,OPolyline_<NT>>); }
// exactly representable inputs: predicates must not depend on the storage
template<typename F1,typename F2> void exactOps( mon::Case& c, P a, P b, P d, bool col )
{
	typedef Point2d_<F1> P1; typedef Point2d_<F2> P2; c.chk("collinear",areCollinear(P1((F1)a.x,(F1)a.y),P2((F2)b.x,(F2)b.y),P1((F1)d.x,(F1)d.y))==col&&areCollinear(P2((F2)a.x,(F2)a.y),P2((F2)b.x,(F2)b.y),P2((F2)d.x,(F2)d.y))==col);
	if( !(a==b) && !(a==d) && !(b==d) ) { Segment_<F1> s((F1)a.x,(F1)a.y,(F1)b.x,(F1)b.y); Segment_<F2> t((F2)a.x,(F2)a.y,(F2)b.x,(F2)b.y); c.chk("equal-segments",Segment_<NT>(s)==Segment_<NT>(t)); c.chk("equal-points",Point2d_<NT>(P1((F1)a.x,(F1)a.y))==Point2d_<NT>(P2((F2)a.x,(F2)a.y))); c.chk("parallel-exact",s.isParallelTo(t)); }
}
SECTION(exact,3000)
{
	P a=ipt(c.rng,12),b=ipt(c.rng,12),d=ipt(c.rng,12); if( c.rng.coin() ) d=a+(LD)c.rng.i(-3,3)*(b-a); inP(c,"a",a); inP(c,"b",b); inP(c,"d",d); bool col=ref::crs(a,b,d)==0; c.cls(col?"collinear":"not");
	exactOps<float,double>(c,a,b,d,col); exactOps<double,float>(c,a,b,d,col); exactOps<float,float>(c,a,b,d,col); exactOps<long double,float>(c,a,b,d,col); exactOps<double,long double>(c,a,b,d,col);
	auto hom=[&]( auto h, const char* n ) { h.setRotation(0.25*(double)c.idx); h.addTranslation((double)a.x,(double)a.y); h.addScale(0.5,2.); HomogrL L(h); for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) c.chk(std::string("homogr-")+n,L.value(i,j)==(long double)h.value(i,j)); decltype(h) back(L); c.chk("homogr-back",back==h); HomogrL M; (void)(M*Line2dL(1,2)); M=h; P q=rd(M*Point2dL((long double)b.x,(long double)b.y)), q2=rd(L*Point2dL((long double)b.x,(long double)b.y)); c.chk("homogr-assigned",q==q2); c.chk("homogr-line",M*Line2dL(1,2)==L*Line2dL(1,2)); };
	hom(HomogrF(),"float"); hom(HomogrD(),"double"); hom(HomogrL(),"long");
}
// ---- accuracy of the internal type: well conditioned computations must be good to a few units ----
SECTION(accuracy,9000)
{
	LD u=std::numeric_limits<NT>::epsilon(); auto v=[&]( LD lo, LD hi ) { LD x=lo+(hi-lo)*( (LD)(c.rng.next()>>1)/(LD)(1ULL<<63) ); return (LD)(NT)x; }; // all the bits of the type
	P a{v(-9,9),v(-9,9)}, b{v(-9,9),v(-9,9)}, d{v(-9,9),v(-9,9)}, e{v(-9,9),v(-9,9)}; LD r=v(0.5L,9); inP(c,"a",a); inP(c,"b",b); inP(c,"d",d); inP(c,"e",e); c.in("r",r); LD K=64*u; if( ref::dist(a,b)<1||ref::dist(d,e)<1||ref::dist(a,d)<0.5L ) { c.skip("close"); return; }
	c.near("distance",mk(a).distTo(mk(b)),ref::dist(a,b),K*20); c.near("seg-length",Segment(mk(a),mk(b)).length(),ref::dist(a,b),K*20); { P m=ref::mid(a,b); c.chk("middle",ref::dist(rd(Segment(mk(a),mk(b)).getCenter()),m)<=K*10); }
	Circle k(mk(a),(NT)r); c.near("circle-area",k.area(),PI*r*r,K*r*r*3); c.near("circle-length",k.length(),2*PI*r,K*r*6); FRect f(mk(a),mk(b)); if( std::fabs(a.x-b.x)>0.1L&&std::fabs(a.y-b.y)>0.1L ) { c.near("rect-area",f.area(),std::fabs((a.x-b.x)*(a.y-b.y)),K*400); c.near("rect-length",f.length(),2*(std::fabs(a.x-b.x)+std::fabs(a.y-b.y)),K*80); }
	Line2d l(mk(a),mk(b)), m(mk(d),mk(e)); c.near("point-line",mk(d).distTo(l),ref::dist(a,b)>0?std::fabs(ref::crs(a,b,d))/ref::dist(a,b):0,K*100);
	{ LD cr=std::fabs((b-a).x*(e-d).y-(b-a).y*(e-d).x)/ref::dist(a,b)/ref::dist(d,e); if( cr>0.2L ) { LD t=((d-a).x*(e-d).y-(d-a).y*(e-d).x)/((b-a).x*(e-d).y-(b-a).y*(e-d).x); P x=a+t*(b-a); if( ref::norm(x)<50 ) { c.chkf("intersection",ref::dist(rd(Point2d(l*m)),x)<=K*600/cr/cr,[&](std::ostream&o){o<<"off by "<<ref::dist(rd(Point2d(l*m)),x)<<" tol "<<K*600/cr/cr;}); LD an=asinl(cr); if( cr<0.9L ) c.near("angle",l.getAngle(m),an,K*200); }
		auto ii=Segment(mk(a),mk(b)).intersects(Segment(mk(d),mk(e))); LD t2=((d-a).x*(b-a).y-(d-a).y*(b-a).x)/((b-a).x*(e-d).y-(b-a).y*(e-d).x); if( t>0.01L&&t<0.99L&&t2>0.01L&&t2<0.99L ) { c.chk("seg-inters",ii()); if( ii() ) c.chk("seg-inters-point",ref::dist(rd(ii.get()),x)<=K*600/cr/cr); } } }
	{ LD an=v(-3,3); Homogr H; H.setRotation((NT)an); P x=ref::rot(d,an); c.chkf("rotation",ref::dist(rd(H*mk(d)),x)<=K*40,[&](std::ostream&o){o<<"off by "<<ref::dist(rd(H*mk(d)),x);}); H.addTranslation((NT)a.x,(NT)a.y); H.addScale((NT)r); c.chk("compose",ref::dist(rd(H*mk(d)),r*(x+a))<=K*600); Homogr I(H); I.inverse(); c.chk("inverse",ref::dist(rd(I*(H*mk(d))),d)<=K*2000); }
	{ ref::Cir ci; LD ar=std::fabs(ref::crs(a,b,d)); if( ar>10&&ref::dist(a,d)>2&&ref::dist(b,d)>2 ) { ref::circum(a,b,d,ci); if( ci.r<40 ) { Circle q(mk(a),mk(b),mk(d)); c.chkf("circum",ref::dist(rd(q.center()),ci.c)<=K*6e4L&&std::fabs(q.radius()-ci.r)<=K*6e4L,[&](std::ostream&o){o<<"off by "<<ref::dist(rd(q.center()),ci.c)<<" tol "<<K*6e4L;}); } } }
	{ LD h=std::fabs(ref::crs(a,b,d))/ref::dist(a,b); Circle q(mk(d),(NT)9); if( h<8 ) { auto in=l.intersects(q); c.chk("line-circle",in()); if( in() ) { P dir=(1/ref::dist(a,b))*(b-a); P ft=a+ref::dot(d-a,dir)*dir; LD s=std::sqrt(81-h*h); P x1=ft+s*dir,x2=ft-s*dir; P g1=rd(in.get().first),g2=rd(in.get().second); c.chkf("line-circle-points",std::min(ref::dist(g1,x1)+ref::dist(g2,x2),ref::dist(g1,x2)+ref::dist(g2,x1))<=K*4000,[&](std::ostream&o){ o<<"off by "<<std::min(ref::dist(g1,x1)+ref::dist(g2,x2),ref::dist(g1,x2)+ref::dist(g2,x1))<<" tol "<<K*4000; }); } } }
	{ LD h=ref::dist(a,d); LD r1=v(3,9), r2=v(3,9); if( h>1&&h<r1+r2-0.5L&&h>std::fabs(r1-r2)+0.5L ) { auto in=Circle(mk(a),(NT)r1).intersects(Circle(mk(d),(NT)r2)); c.chk("circles",in()); if( in() ) for( auto&p: in.get() ) c.chkf("circles-points",std::fabs(ref::dist(rd(p),a)-r1)<=K*2000&&std::fabs(ref::dist(rd(p),d)-r2)<=K*2000,[&](std::ostream&o){ o<<"off by "<<ref::dist(rd(p),a)-r1; }); } }
	{ Poly t{a,b,d}; if( std::fabs(ref::area2(t))>4 ) { CPolyline p(mkv(t)); c.near("poly-area",p.area(),std::fabs(ref::area2(t))/2,K*400); c.near("poly-length",p.length(),ref::perim(t,true),K*100); c.chkf("centroid",ref::dist(rd(p.centroid()),ref::centroid(t))<=K*4e4L,[&](std::ostream&o){o<<"off by "<<ref::dist(rd(p.centroid()),ref::centroid(t));}); } int n=(int)c.rng.i(3,20); CPolyline rp((NT)r,n); const auto& crp=rp; for( int i=0;i<n;i++ ) c.chkf("regular",ref::dist(rd(crp.getPts()[i]),P{r*cosl(2*PI*i/n),r*sinl(2*PI*i/n)})<=K*r*8,[&](std::ostream&o){o<<"off by "<<ref::dist(rd(crp.getPts()[i]),P{r*cosl(2*PI*i/n),r*sinl(2*PI*i/n)});}); }
	{ LD A=v(4,9),B=v(1.5L,3),th=v(-1.5L,1.5L); Ellipse q(mk(a),(NT)A,(NT)B,(NT)th); LD T=K*40*81*(1+ref::dot(a,a)/(B*B)); c.chkf("ellipse",ref::dist(rd(q.getCenter()),a)<=T*9&&std::fabs(q.getMajMin().first-A)<=T*9&&std::fabs(q.getMajMin().second-B)<=T*9&&std::fabs(sinl(q.angle()-th))<=T+2.5e-10L*(std::fabs(th)<1e-9L),[&](std::ostream&o){ o<<"center off "<<ref::dist(rd(q.getCenter()),a)<<" axes off "<<q.getMajMin().first-A<<" "<<q.getMajMin().second-B<<" angle off "<<sinl(q.angle()-th)<<" tol "<<T; }); c.near("ellipse-area",q.area(),PI*A*B,T*200); }
	{ Line2d o=l.getOrthogLine(mk(d)); P dir=(1/ref::dist(a,b))*(b-a); c.chk("orthogonal",std::fabs(ref::dot(dirL(o),dir))<=K*30&&dL(o,d)<=K*100); Line2d pl=l.getParallelLine(mk(d)); c.chk("parallel",std::fabs(ref::crs(P{0,0},dirL(pl),dir))<=K*30&&dL(pl,d)<=K*100); auto bi=getBisector(Segment(mk(a),mk(b))); c.chk("bisector",std::fabs(ref::dot(dirL(bi),dir))<=K*60&&dL(bi,ref::mid(a,b))<=K*200); }
}
// the coordinates being stored in a narrower type, what is computed from them has the precision of the internal type
template<typename F> void internal( mon::Case& c )
{
	Raw x=rndRaw(c), y=rndRaw(c); show(c,"A",x); show(c,"B",y); Objs<F> a(x), b(y); Objs<NT> A(x), B(y); LD u=std::numeric_limits<NT>::epsilon();
	auto eq=[&]( const char* k, LD got, LD ref, LD S ) { c.near(std::string("internal-")+k,got,ref,64*u*S); };
	eq("distance",a.p.distTo(b.q),A.p.distTo(B.q),60); eq("dist-free",dist(a.p,b.q),A.p.distTo(B.q),60); eq("segment-length",a.s.length(),A.s.length(),60); eq("segment-length-free",length(a.o),A.s.length(),60); eq("segment-dist",a.s.distTo(b.p),A.s.distTo(B.p),600);
	eq("circle-area",a.c.area(),A.c.area(),900); eq("circle-length",a.c.length(),A.c.length(),100); eq("rect-area",a.r.area(),A.r.area(),3600); eq("rect-length",a.r.length(),A.r.length(),200); eq("rect-width",a.r.width(),A.r.width(),60); eq("rect-height",height(a.r),A.r.height(),60);
	eq("poly-area",a.cp.area(),A.cp.area(),4000); eq("poly-length",a.cp.length(),A.cp.length(),600); eq("open-length",a.op.length(),A.op.length(),600); if( A.cp.isSimple()&&A.cp.area()>1 ) { LD L=A.cp.length(); LD S=60*L*L/A.cp.area(); eq("poly-centroid",a.cp.centroid().getX(),A.cp.centroid().getX(),S); eq("poly-centroid",a.cp.centroid().getY(),A.cp.centroid().getY(),S); }
	auto bb=[&]( const char* k, const auto& f, const auto& g ) { auto p=f.getPts(); auto q=g.getPts(); eq(k,p.first.getX(),q.first.getX(),60); eq(k,p.first.getY(),q.first.getY(),60); eq(k,p.second.getX(),q.second.getX(),60); eq(k,p.second.getY(),q.second.getY(),60); };
	bb("circle-bb",a.c.getBB(),A.c.getBB()); bb("circle-bb-free",getBB(a.c),A.c.getBB()); bb("poly-bb",a.cp.getBB(),A.cp.getBB());
	{ auto g=[&]( auto& s ) { return s.getAngle(s); }; (void)g; eq("angle",getAngle(a.s,b.s),getAngle(A.s,B.s),1e3); }
	// decisions: the margin is below the precision of the stored type
	LD m=(c.rng.coin()?1:-1)*std::sqrt(u)*(LD)std::exp(c.rng.d(-3,3)); if( sizeof(F)==sizeof(double) ) m*=1e-2L; c.in("margin",m); bool in=m>0; P cc=x.c; LD r=x.r; 
	{ FRect_<NT> w( Point2d_<NT>((NT)(cc.x-r-(c.rng.coin()?m:3)),(NT)(cc.y-r-m)), Point2d_<NT>((NT)(cc.x+r+4),(NT)(cc.y+r+3)) ); c.chk("circle-in-rect",a.c.isInside(w)==in); c.chk("circle-in-rect-2pts",a.c.isInside(w.getPts().second,w.getPts().first)==in); FRect_<NT> w2( Point2d_<NT>((NT)(cc.x-r-4),(NT)(cc.y-r-3)), Point2d_<NT>((NT)(cc.x+r+m),(NT)(cc.y+r+(c.rng.coin()?m:2))) ); c.chk("circle-in-rect-2",a.c.isInside(w2)==in); }
	{ LD d=c.rng.d(0,1)*6.28L; Circle_<NT> k( Point2d_<NT>((NT)(cc.x+3*std::cos(d)),(NT)(cc.y+3*std::sin(d))), (NT)(r+ref::dist(cc,rd(Point2d_<NT>((NT)(cc.x+3*std::cos(d)),(NT)(cc.y+3*std::sin(d)))))+m) ); c.chk("circle-in-circle",a.c.isInside(k)==in); }
	{ P q=x.p; Circle_<NT> k( Point2d_<NT>((NT)cc.x,(NT)cc.y), (NT)(ref::dist(q,cc)+m) ); c.chk("point-in-circle",a.p.isInside(k)==in); FRect_<NT> w( Point2d_<NT>((NT)(q.x-1),(NT)(q.y-2)), Point2d_<NT>((NT)(q.x+m),(NT)(q.y+3)) ); c.chk("point-in-rect",a.p.isInside(w)==in); }
	{ P q=x.s1, s=x.s2; LD far=std::max(ref::dist(q,cc),ref::dist(s,cc)); Circle_<NT> k( Point2d_<NT>((NT)cc.x,(NT)cc.y), (NT)(far+m) ); if( std::fabs(ref::dist(q,cc)-ref::dist(s,cc))>0.01L ) c.chk("segment-in-circle",a.s.isInside(k)==in); }
	{ LD far=0; for( P q: {x.r1,x.r2,P{x.r1.x,x.r2.y},P{x.r2.x,x.r1.y}} ) far=std::max(far,ref::dist(q,cc)); Circle_<NT> k( Point2d_<NT>((NT)cc.x,(NT)cc.y), (NT)(far+m) ); c.chk("rect-in-circle",a.r.isInside(k)==in); far=0; for( P q: x.cp ) far=std::max(far,ref::dist(q,cc)); Circle_<NT> k2( Point2d_<NT>((NT)cc.x,(NT)cc.y), (NT)(far+m) ); c.chk("poly-in-circle",a.cp.isInside(k2)==in); }
	{ LD d=ref::dist(x.c,y.c); if( std::fabs(x.r-y.r)<d-0.1L ) { if( d-r>0.5L ) { Circle_<NT> k( Point2d_<NT>((NT)y.c.x,(NT)y.c.y), (NT)(d-r+m) ); c.chk("circles-cross",a.c.intersects(k)()==in); c.chk("circles-cross-rev",k.intersects(a.c)()==in); } } }
}
SECTION(internal,3000) { if( sizeof(NT)>sizeof(double)&&c.rng.coin() ) internal<double>(c); else internal<float>(c); }
MON_MAIN
