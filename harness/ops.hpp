// A pool of objects of every type and a table of const operations over it, answers digested into comparable values.
#pragma once
#include <utility>
#include "h2.hpp"
#include <functional>
#include <variant>
#include <cstring>
namespace ops {
template<typename F> struct PoolT {
	std::vector<Point2d_<F>> pt; std::vector<Line2d_<F>> li; std::vector<Segment_<F>> sg; std::vector<OSegment_<F>> os; std::vector<FRect_<F>> fr;
	std::vector<Circle_<F>> ci; std::vector<Ellipse_<F>> el; std::vector<CPolyline_<F>> cp; std::vector<OPolyline_<F>> op; std::vector<Homogr_<F>> H;
	template<typename T> const std::vector<T>& of() const {
		if constexpr( std::is_same<T,Point2d_<F>>::value ) return pt; else if constexpr( std::is_same<T,Line2d_<F>>::value ) return li; else if constexpr( std::is_same<T,Segment_<F>>::value ) return sg; else if constexpr( std::is_same<T,OSegment_<F>>::value ) return os;
		else if constexpr( std::is_same<T,FRect_<F>>::value ) return fr; else if constexpr( std::is_same<T,Circle_<F>>::value ) return ci; else if constexpr( std::is_same<T,Ellipse_<F>>::value ) return el; else if constexpr( std::is_same<T,CPolyline_<F>>::value ) return cp; else if constexpr( std::is_same<T,OPolyline_<F>>::value ) return op; else return H; }
};
// unit and origin in which the scene is expressed (C27); dims: what each number of an answer is
struct Frame { LD u=1,tx=0,ty=0; bool on=false; }; inline Frame& frame() { static thread_local Frame f; return f; }
inline LD kL( LD x ) { return frame().on?x*frame().u:x; } inline LD kX( LD x ) { return frame().on?x*frame().u+frame().tx:x; } inline LD kY( LD x ) { return frame().on?x*frame().u+frame().ty:x; }
enum { D0=0, D1=1, D2=2, DM=3, DU=9, DX=10, DY=11, DA=12, DB=13, DC=14, DANG=15 };
struct Ans { std::vector<LD> v; std::string t; std::vector<signed char> d; void add( LD x, int k ) { d.resize(v.size(),DU); v.push_back(x); d.push_back((signed char)k); }
	bool operator==( const Ans& o ) const { if( t!=o.t||v.size()!=o.v.size() ) return false; for( size_t i=0;i<v.size();i++ ) if( !(v[i]==o.v[i]||(std::isnan(v[i])&&std::isnan(o.v[i]))) ) return false; return true; } };
inline std::ostream& operator<<( std::ostream& f, const Ans& a ) { f<<a.t<<" {"; size_t n=0; for( auto d: a.v ) { if( n++>24 ) { f<<"..."; break; } f<<std::setprecision(17)<<d<<","; } return f<<"}"; }
// ---- feeding answers ----
template<typename T,std::enable_if_t<std::is_arithmetic<T>::value||std::is_enum<T>::value,int> =0> void fd( Ans& a, T x ) { if constexpr( std::is_enum<T>::value ) a.add((LD)(long)x,D0); else if constexpr( std::is_integral<T>::value ) a.add((LD)x,D0); else a.add((LD)x,DU); }
inline void fd( Ans& a, const std::string& s ) { a.t+=s; a.t+=";"; }
inline void fd( Ans& a, std::monostate ) { a.t+="void;"; }
template<typename LP,typename F> void fd( Ans& a, const base::LPBase<LP,F>& p ) {
	if( frame().on ) { if constexpr( std::is_same<LP,typ::IsPoint>::value ) { if( !p.isInf() ) { a.add((LD)p.getX(),DX); a.add((LD)p.getY(),DY); } else { auto g=p.get(); LD n=std::hypot((LD)g[0],(LD)g[1]); if( (g[0]!=0?g[0]:g[1])<0 ) n=-n; a.add(g[0]/n,D0); a.add(g[1]/n,D0); } } else { auto g=p.get(); a.add((LD)g[0],DA); a.add((LD)g[1],DB); a.add((LD)g[2],DC); } return; }
	auto g=p.get(); for( auto x: g ) a.v.push_back((LD)x); }
template<typename S,typename F> void fd( Ans& a, const base::SegVec<S,F>& s ) { auto q=s.getPts(); fd(a,q.first); fd(a,q.second); }
template<typename F> void fd( Ans& a, const FRect_<F>& s ) { auto q=s.getPts(); fd(a,q.first); fd(a,q.second); }
template<typename F> void fd( Ans& a, const Circle_<F>& s ) { fd(a,s.center()); a.add((LD)s.radius(),D1); }
template<typename F> void fd( Ans& a, const Ellipse_<F>& s ) { fd(a,s.getCenter()); auto m=s.getMajMin(); a.add((LD)m.first,D1); a.add((LD)m.second,D1); a.add(frame().on&&std::fabs((LD)m.first-(LD)m.second)<1e-4L*(LD)m.first?0.L:(LD)s.angle(),DANG); }
template<typename T,typename F> void fd( Ans& a, const base::PolylineBase<T,F>& s ) { fd(a,s.isClosed()); for( const auto& p: s.getPts() ) fd(a,p); }
template<typename W,typename F> void fd( Ans& a, const Hmatrix_<W,F>& h ) { for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) a.add((LD)h.value(i,j),i<2&&j==2?D1:i==2&&j<2?DM:D0); }
template<typename A,typename B> void fd( Ans& a, const std::pair<A,B>& p ) { fd(a,p.first); fd(a,p.second); }
template<typename A> void fd( Ans& a, const std::vector<A>& p ) { fd(a,p.size()); for( const auto& x: p ) fd(a,x); }
template<typename A,size_t N> void fd( Ans& a, const std::array<A,N>& p ) { for( const auto& x: p ) fd(a,x); }
template<typename F> void fd( Ans& a, const detail::IntersectM<F>& x ) { fd(a,x()); fd(a,x.size()); fd(a,x.get()); }
template<typename F> void fd( Ans& a, const detail::Intersect<detail::Inters_1,F>& x ) { fd(a,x()); fd(a,x.size()); if( x() ) fd(a,x.get()); }
template<typename F> void fd( Ans& a, const detail::Intersect<detail::Inters_2,F>& x ) { fd(a,x()); fd(a,x.size()); if( x() ) fd(a,x.get()); }
template<typename F> void fd( Ans& a, const detail::RectArea<F>& x ) { fd(a,x()); if( x() ) fd(a,x.get()); }
template<typename T> void svg( Ans& a, const T& o ) { img::Image<img::SvgImage> im(300,300); o.draw(im); std::ostringstream s; s<<im; std::string q=s.str(); auto i=q.find("<svg"); a.t+=(i==std::string::npos?q:q.substr(i))+";"; }
template<typename T> void stream( Ans& a, const T& o ) { std::ostringstream s; s<<std::setprecision(17)<<o; a.t+=s.str()+";"; }
template<typename F> using Op=void(*)( const PoolT<F>&, size_t, size_t, Ans& );
template<typename F> struct OpD { std::string name; Op<F> f; };
// SFINAE: does fn(a,b) have a valid declaration?
template<typename L,typename... Ar> auto can( int ) -> decltype( std::declval<L>()(std::declval<Ar>()...), std::true_type() ); template<typename L,typename... Ar> std::false_type can( ... );
template<typename T> struct Tag { using type=T; };
template<typename F> const char* nm( Tag<Point2d_<F>> ) { return "Point2d"; } template<typename F> const char* nm( Tag<Line2d_<F>> ) { return "Line2d"; } template<typename F> const char* nm( Tag<Segment_<F>> ) { return "Segment"; } template<typename F> const char* nm( Tag<OSegment_<F>> ) { return "OSegment"; } template<typename F> const char* nm( Tag<FRect_<F>> ) { return "FRect"; }
template<typename F> const char* nm( Tag<Circle_<F>> ) { return "Circle"; } template<typename F> const char* nm( Tag<Ellipse_<F>> ) { return "Ellipse"; } template<typename F> const char* nm( Tag<CPolyline_<F>> ) { return "CPolyline"; } template<typename F> const char* nm( Tag<OPolyline_<F>> ) { return "OPolyline"; } template<typename F> const char* nm( Tag<Homogr_<F>> ) { return "Homogr"; }
template<typename F,typename Fn> void eachT( Fn fn ) { fn(Tag<Point2d_<F>>()); fn(Tag<Line2d_<F>>()); fn(Tag<Segment_<F>>()); fn(Tag<OSegment_<F>>()); fn(Tag<FRect_<F>>()); fn(Tag<Circle_<F>>()); fn(Tag<Ellipse_<F>>()); fn(Tag<CPolyline_<F>>()); fn(Tag<OPolyline_<F>>()); }
#define OPS_U1(TT,NAME,EXPR) v.push_back( OpD<F>{ std::string(nm(Tag<TT>()))+"." NAME, []( const PoolT<F>& p, size_t i, size_t j, Ans& a ) { const auto& c=p.template of<TT>(); if( c.empty() ) return; const TT& o=c[i%c.size()]; (void)o; (void)j; EXPR; } } );
#define OPS_FD(TT,NAME,EXPR) OPS_U1(TT,NAME,fd(a,EXPR))
template<typename TA,typename TB,typename F,typename G> struct B2 { static void run( const PoolT<F>& p, size_t i, size_t j, Ans& a ) { const auto& ca=p.template of<TA>(); const auto& cb=p.template of<TB>(); if( ca.empty()||cb.empty() ) return; fd( a, G()( ca[i%ca.size()], cb[j%cb.size()] ) ); } };
#define OPS_G2(GN,EXPR) struct GN { template<typename A,typename B> auto operator()( const A& x, const B& y ) const -> decltype( EXPR ) { return EXPR; } };
#define OPS_G1(GN,EXPR) struct GN { template<typename A> auto operator()( const A& x ) const -> decltype( EXPR ) { return EXPR; } };
OPS_G2(Gint,x.intersects(y)) OPS_G2(Gins,x.isInside(y)) OPS_G2(Geq,x==y) OPS_G2(Gne,x!=y) OPS_G2(Glt,x<y) OPS_G2(Gdist,x.distTo(y)) OPS_G2(Gang,x.getAngle(y)) OPS_G2(Gpar,x.isParallelTo(y)) OPS_G2(Gcont,x.contains(y)) OPS_G2(Gmul,x*y) OPS_G2(Gbb2,getBB(x,y)) OPS_G2(Gang2,getAngle(x,y)) OPS_G2(Gpd,getParallelDistance(x,y)) OPS_G2(Gor,x|y) OPS_G2(Gand,x&y) OPS_G2(Gtan,getTanSegs(x,y)) OPS_G2(Gseg2,getSegment(x,y)) OPS_G2(Gline2,getLine(x,y)) OPS_G2(Gcross,crossProduct(x,y))
template<typename F,typename G,typename TA,typename TB,bool OK> void add2( std::vector<OpD<F>>& v, const char* n ) { if constexpr( OK ) if constexpr( decltype( can<G,const TA&,const TB&>(0) )::value ) { using R=decltype( G()( std::declval<const TA&>(), std::declval<const TB&>() ) ); if constexpr( !std::is_void<R>::value ) v.push_back( { std::string(nm(Tag<TA>()))+" "+n+" "+nm(Tag<TB>()), &B2<TA,TB,F,G>::run } ); } }
template<typename T> struct isPl { static constexpr bool value=false; }; template<typename T,typename F> struct isPl<base::PolylineBase<T,F>> { static constexpr bool value=true; };
template<typename F> std::vector<OpD<F>> table()
{
	using namespace h2d; std::vector<OpD<F>> v; using PT=Point2d_<F>; using LI=Line2d_<F>; using SG=Segment_<F>; using OS=OSegment_<F>; using FR=FRect_<F>; using CI=Circle_<F>; using EL=Ellipse_<F>; using CPL=CPolyline_<F>; using OPL=OPolyline_<F>; using HO=Homogr_<F>; (void)sizeof(PT); (void)sizeof(LI);
	// every pair of types, every binary operation that exists
	eachT<F>( [&]( auto ta ) { using TA=typename decltype(ta)::type; eachT<F>( [&]( auto tb ) { using TB=typename decltype(tb)::type;
		constexpr bool same=std::is_same<TA,TB>::value, pa=isPl<TA>::value, pb=isPl<TB>::value; (void)pa; (void)pb;
		constexpr bool ell=std::is_same<TA,EL>::value||std::is_same<TB,EL>::value; constexpr bool ptl=std::is_same<TB,PT>::value||std::is_same<TB,LI>::value; constexpr bool lnA=std::is_same<TA,LI>::value, lnB=std::is_same<TB,LI>::value, ptA=std::is_same<TA,PT>::value, ptB=std::is_same<TB,PT>::value;
		add2<F,Gint,TA,TB,!ell&&!ptA&&!ptB>(v,"intersects"); add2<F,Gins,TA,TB,!lnB&&!lnA&&!ptB>(v,"isInside"); add2<F,Geq,TA,TB,same||(pa&&pb)>(v,"=="); add2<F,Gne,TA,TB,same>(v,"!="); add2<F,Glt,TA,TB,same&&!pa&&!lnA>(v,"<"); add2<F,Gdist,TA,TB,ptA||(lnA&&ptB)>(v,"distTo");
		constexpr bool sgA=std::is_same<TA,SG>::value||std::is_same<TA,OS>::value, sgB=std::is_same<TB,SG>::value||std::is_same<TB,OS>::value; add2<F,Gang,TA,TB,(lnA||sgA)&&(lnB||sgB)>(v,"getAngle"); add2<F,Gpar,TA,TB,(lnA||sgA)&&(lnB||sgB)>(v,"isParallelTo"); add2<F,Gmul,TA,TB,(lnA&&lnB)||(ptA&&ptB)>(v,"*");
		add2<F,Gdist,TA,TB,sgA&&ptB>(v,"distTo"); add2<F,Gcont,TA,TB,std::is_same<TA,CI>::value&&ptB>(v,"contains"); add2<F,Gbb2,TA,TB,!lnA&&!lnB>(v,"getBB"); add2<F,Gang2,TA,TB,(lnA||sgA)&&(lnB||sgB)>(v,"angle"); add2<F,Gpd,TA,TB,lnA&&lnB>(v,"parDist"); add2<F,Gor,TA,TB,same&&std::is_same<TA,FR>::value>(v,"|"); add2<F,Gand,TA,TB,same&&std::is_same<TA,FR>::value>(v,"&");
		add2<F,Gtan,TA,TB,same&&std::is_same<TA,CI>::value>(v,"tanSegs"); add2<F,Gseg2,TA,TB,same&&std::is_same<TA,CI>::value>(v,"getSegment"); add2<F,Gline2,TA,TB,same&&std::is_same<TA,CI>::value>(v,"getLine"); (void)ptl; } ); 
		// unary operations of every type
		OPS_U1(TA,"draw",svg(a,o)) OPS_U1(TA,"<<",stream(a,o)) OPS_FD(TA,"size",o.size()) OPS_FD(TA,"copy",TA(o)) OPS_FD(TA,"type",(int)o.type()) OPS_FD(TA,"dtype",(int)o.dtype()) OPS_FD(TA,"area",o.area()) OPS_FD(TA,"length",o.length()) 
		OPS_U1(TA,"getBB",if constexpr( !std::is_same<TA,LI>::value&&!std::is_same<TA,PT>::value ) { if constexpr( !std::is_same<TA,SG>::value&&!std::is_same<TA,OS>::value ) { fd(a,o.getBB()); fd(a,h2d::getBB(o)); } fd(a,h2d::length(o)); })
		OPS_U1(TA,"Homogr * it",{ if( p.H.empty() ) return; fd(a,p.H[j%p.H.size()]*o); })
		OPS_U1(TA,"getBB of the pool",{ if constexpr( !std::is_same<TA,LI>::value ) fd(a,h2d::getBB(c)); })
	} );
	OPS_FD(PT,"getX",o.getX()) OPS_FD(PT,"getY",o.getY()) OPS_FD(PT,"get",o.get()) OPS_FD(PT,"isInf",o.isInf()) OPS_FD(LI,"get",o.get()) OPS_FD(LI,"isInf",o.isInf())
	OPS_U1(PT,"isInside(pt,pt)",fd(a,o.isInside(c[j%c.size()],c[(j+1)%c.size()]))) OPS_U1(PT,"distance x3",for( int k=0;k<3;k++ ) fd(a,o.distTo(c[(j+k)%c.size()])))
	OPS_U1(PT,"findNearest",fd(a,findNearestPoint(o,c))) OPS_U1(PT,"findFarthest",fd(a,findFarthestPoint(o,c))) OPS_U1(PT,"findNearestFarthest",fd(a,findNearestFarthestPoint(o,c)))
	OPS_U1(PT,"getLmPoint",fd(a,getLmPoint(c)); fd(a,getRmPoint(c)); fd(a,getTmPoint(c)); fd(a,getBmPoint(c))) OPS_U1(PT,"convexHull",fd(a,convexHull(c))) OPS_U1(PT,"getPtsInside circle",if( p.ci.empty() ) return; fd(a,getPtsInside(c,p.ci[j%p.ci.size()]))) OPS_U1(PT,"getPtsInside rect",if( p.fr.empty() ) return; fd(a,getPtsInside(c,p.fr[j%p.fr.size()]))) OPS_U1(PT,"getPtsInside poly",if( p.cp.empty() ) return; fd(a,getPtsInside(c,p.cp[j%p.cp.size()])))
	OPS_U1(PT,"min enclosing circle",CI q; q.set(c); fd(a,q)) OPS_U1(PT,"circle 3 pts",fd(a,CI(o,c[j%c.size()],c[(j+1)%c.size()]))) OPS_U1(PT,"circle 2 pts",fd(a,CI(o,c[j%c.size()]))) OPS_U1(PT,"line",fd(a,LI(o,c[j%c.size()]))) OPS_U1(PT,"segment",fd(a,SG(o,c[j%c.size()]))) OPS_U1(PT,"rect",fd(a,FR(o,c[j%c.size()]))) OPS_U1(PT,"poly",fd(a,CPL(c))) OPS_U1(PT,"open poly",fd(a,OPL(c)))
	OPS_U1(PT,"areCollinear",fd(a,areCollinear(o,c[j%c.size()],c[(j+1)%c.size()]))) OPS_U1(PT,"homography from 4 points",std::vector<PT> s; std::vector<PT> d; for( size_t k=0;k<4;k++ ) { s.push_back(c[(i+k)%c.size()]); d.push_back(c[(j+k)%c.size()]); } HO h; h.buildFrom4Points(s,d); fd(a,h))
	OPS_U1(PT,"rect around",FR r; r.set(o,c[j%c.size()]); fd(a,r)) OPS_U1(PT,"pt*pt",fd(a,o*c[j%c.size()])) OPS_U1(PT,"getBB pts",fd(a,getBB(c)))
	OPS_U1(LI,"getPoint x",fd(a,o.getPoint(GivenCoord::X,(F)kX(j)))) OPS_U1(LI,"getPoint y",fd(a,o.getPoint(GivenCoord::Y,(F)kY(j)))) OPS_U1(LI,"getPoints",fd(a,o.getPoints(GivenCoord::X,(F)kX(j),(F)kL(3)))) OPS_U1(LI,"getPoints pt",if( p.pt.empty() ) return; fd(a,o.getPoints(p.pt[j%p.pt.size()],(F)kL(3))))
	OPS_U1(LI,"orthogonal",fd(a,o.getOrthogLine(GivenCoord::Y,(F)kY(j)))) OPS_U1(LI,"orthogonal pt",if( p.pt.empty() ) return; fd(a,o.getOrthogLine(p.pt[j%p.pt.size()]))) OPS_U1(LI,"parallel",if( p.pt.empty() ) return; fd(a,o.getParallelLine(p.pt[j%p.pt.size()]))) OPS_U1(LI,"parallels",fd(a,o.getParallelLines((F)kL(j%7+1)))) OPS_U1(LI,"projection",if( p.pt.empty() ) return; fd(a,o.getOrthogSegment(p.pt[j%p.pt.size()]))) OPS_U1(LI,"rotated",if( p.pt.empty() ) return; fd(a,o.getRotatedLine(p.pt[j%p.pt.size()],(F)0.3)))
	auto segops=[&]( auto t ) { using S=typename decltype(t)::type;
		OPS_FD(S,"getPts",o.getPts()) OPS_FD(S,"getLine",o.getLine()) OPS_FD(S,"getCenter",o.getCenter()) OPS_FD(S,"getBisector",o.getBisector()) OPS_FD(S,"getOrthogPts",o.getOrthogPts()) OPS_FD(S,"getOrthogSegs",o.getOrthogSegs()) OPS_FD(S,"getExtended",o.getExtended()) OPS_FD(S,"split",o.split()) OPS_FD(S,"getParallelSegs",o.getParallelSegs((F)kL(j%5+1))) 
		OPS_U1(S,"distTo+case",if( p.pt.empty() ) return; int k=0; fd(a,o.distTo(p.pt[j%p.pt.size()],&k)); fd(a,k)) OPS_U1(S,"getCenters",if constexpr( std::is_same<S,SG>::value ) fd(a,getCenters(c))) OPS_U1(S,"getLines",fd(a,getLines(c))) OPS_U1(S,"getBB segs",fd(a,getBB(c))) };
	segops(Tag<SG>()); segops(Tag<OS>());
	OPS_FD(OS,"getVector",o.getVector()) OPS_FD(OS,"point first",o.getPointAt((F)kL(j%5))) OPS_FD(OS,"split dist",o.split((F)kL(j%5))) OPS_U1(OS,"side",if( p.pt.empty() ) return; fd(a,o.getPointSide(p.pt[j%p.pt.size()]))) OPS_U1(OS,"angle free",fd(a,getAngle(o,c[j%c.size()]))) OPS_U1(OS,"minus",fd(a,OS(o)))
	OPS_FD(FR,"getPts",o.getPts()) OPS_FD(FR,"get4Pts",o.get4Pts()) OPS_FD(FR,"getSegs",o.getSegs()) OPS_FD(FR,"getCenter",o.getCenter()) OPS_FD(FR,"getBoundingCircle",o.getBoundingCircle()) OPS_FD(FR,"getInscribedCircle",o.getInscribedCircle()) OPS_FD(FR,"getExtended",o.getExtended()) OPS_FD(FR,"getDiagonals",o.getDiagonals()) OPS_FD(FR,"height",o.height()) OPS_FD(FR,"width",o.width()) OPS_U1(FR,"unionArea",fd(a,o.unionArea(c[j%c.size()]))) OPS_U1(FR,"intersectArea",fd(a,o.intersectArea(c[j%c.size()])))  OPS_FD(FR,"to poly",CPL(o))
	OPS_FD(CI,"radius",o.radius()) OPS_FD(CI,"center",o.center()) OPS_FD(CI,"to ellipse",EL(o))
	OPS_FD(EL,"getMajMin",o.getMajMin()) OPS_FD(EL,"getCenter",o.getCenter()) OPS_FD(EL,"angle",o.angle()) OPS_FD(EL,"isCircle",o.isCircle()) OPS_FD(EL,"getOBB",o.getOBB()) OPS_FD(EL,"getAxisLines",o.getAxisLines()) OPS_FD(EL,"isCircle thr",h2d::isCircle(o,.5))
	auto plops=[&]( auto t ) { using S=typename decltype(t)::type;
		OPS_FD(S,"getPts",o.getPts()) OPS_FD(S,"getSegs",o.getSegs()) OPS_FD(S,"getOSegs",o.getOSegs()) OPS_FD(S,"nbSegs",o.nbSegs()) OPS_FD(S,"getPoint",o.getPoint(j%std::max<size_t>(1,o.size()))) OPS_FD(S,"getSegment",o.getSegment(j%std::max<size_t>(1,o.nbSegs()))) OPS_FD(S,"getOSegment",o.getOSegment(j%std::max<size_t>(1,o.nbSegs()))) OPS_FD(S,"isSimple",o.isSimple()) OPS_FD(S,"isConvex",o.isConvex()) OPS_FD(S,"centroid",o.centroid()) OPS_FD(S,"convexHull",o.convexHull()) OPS_FD(S,"getBisectorLines",o.getBisectorLines())
		OPS_FD(S,"getLmPoint",o.getLmPoint()) OPS_FD(S,"getRmPoint",o.getRmPoint()) OPS_FD(S,"getTmPoint",o.getTmPoint()) OPS_FD(S,"getBmPoint",o.getBmPoint()) OPS_FD(S,"getExtremePoint",o.getExtremePoint(CardDir::Left)) OPS_U1(S,"nearest",if( p.pt.empty() ) return; fd(a,findNearestFarthestPoint(p.pt[j%p.pt.size()],o.getPts()))) OPS_U1(S,"closest points",auto q=getClosestPoints(o,c[j%c.size()]); fd(a,q.getMinDist()); fd(a,q.getPoints()); fd(a,q.getIndexes())) OPS_U1(S,"other==copy",S q(o); fd(a,q==o)) OPS_U1(S,"minimised copy",S q(o); q.minimize(); fd(a,q)) OPS_U1(S,"sorted copies",auto d=c; for( auto& q: d ) fd(a,q.length())) };
	plops(Tag<CPL>()); plops(Tag<OPL>());
	OPS_FD(CPL,"isCCW",o.isConvex()) OPS_FD(CPL,"offset",o.getOffsetPoly((F)kL((LD)((int)(j%7)-3)/2))) OPS_FD(CPL,"getOBB?",o.getBB())
	OPS_FD(HO,"values",o) OPS_U1(HO,"==",fd(a,o==c[j%c.size()])) OPS_U1(HO,"!=",fd(a,o!=c[j%c.size()])) OPS_U1(HO,"*",fd(a,o*c[j%c.size()])) OPS_U1(HO,"<<",stream(a,o)) OPS_U1(HO,"copy",fd(a,HO(o))) OPS_U1(HO,"inverse of copy",HO q(o); q.inverse(); fd(a,q)) OPS_U1(HO,"transpose of copy",HO q(o); q.transpose(); fd(a,q)) OPS_FD(HO,"raw",o.getRaw()) OPS_U1(HO,"line from H",if( p.pt.empty() ) return; auto& A=p.pt[j%p.pt.size()]; auto& B=p.pt[(j+1)%p.pt.size()]; fd(a,LI(o*A,o*B))) OPS_U1(HO,"all points",fd(a,o*p.pt))  OPS_U1(HO,"normalize",HO q(o); q.normalize(); fd(a,q))
	return v;
}
// run one operation: never lets anything but a std::exception escape
template<typename F> Ans ask( const OpD<F>& d, const PoolT<F>& p, size_t i, size_t j ) { Ans a; try { d.f(p,i,j,a); } catch( const std::runtime_error& e ) { a.t+="[runtime_error]"; } catch( const std::exception& e ) { a.t+=std::string("[other exception ")+typeid(e).name()+"]"; } return a; }
// ---- pools ----
struct PoolOpt { int n=3; bool ints=false; double range=20; bool degenerate=false; };
template<typename F> void normal( PoolT<F>& p ) { for( auto& q: p.cp ) (void)( std::as_const(q)==std::as_const(q) ); for( auto& q: p.op ) (void)( std::as_const(q)==std::as_const(q) ); }
template<typename F> PoolT<F> makePool( mon::Rng& r, PoolOpt o=PoolOpt() )
{
	PoolT<F> p; auto co=[&]()->LD { return o.ints? (LD)r.i(-(int)o.range,(int)o.range) : (LD)(F)(LD)r.d(-o.range,o.range); }; auto pt=[&]() { return Point2d_<F>( (F)co(), (F)co() ); }; auto pos=[&]()->F { return o.ints? (F)(LD)r.i(1,9) : (F)(LD)r.d(0.5,12); };
	auto T=[&]( auto f ) { for( int k=0;k<8;k++ ) try { f(); return; } catch( std::runtime_error& ) {} };
	for( int k=0;k<o.n+3;k++ ) p.pt.push_back(pt());
	for( int k=0;k<o.n;k++ ) { T([&]{ p.li.push_back( Line2d_<F>(pt(),pt()) ); }); T([&]{ p.sg.push_back( Segment_<F>(pt(),pt()) ); }); T([&]{ p.os.push_back( OSegment_<F>(pt(),pt()) ); }); T([&]{ p.fr.push_back( FRect_<F>(pt(),pt()) ); }); T([&]{ p.ci.push_back( Circle_<F>(pt(),pos()) ); }); T([&]{ p.el.push_back( Ellipse_<F>(pt(),pos()+(F)9,pos(),(F)(LD)r.d(-1.5,1.5)) ); });
		T([&]{ auto q=gen::simplePoly(r,(int)r.i(3,7),std::max(5,(int)o.range)); std::vector<Point2d_<F>> w; for( auto& t: q ) w.push_back( Point2d_<F>( (F)(o.ints?roundl(t.x):t.x), (F)(o.ints?roundl(t.y):t.y) ) ); p.cp.push_back( CPolyline_<F>(w) ); });
		T([&]{ std::vector<Point2d_<F>> w; int n=(int)r.i(2,6); for( int m=0;m<n;m++ ) w.push_back(pt()); p.op.push_back( OPolyline_<F>(w) ); });
		T([&]{ auto m=gen::rndH(r); Homogr_<F> h; for( int a=0;a<3;a++ ) for( int b=0;b<3;b++ ) h.set(a,b,(F)m[a][b]); h.normalize(); p.H.push_back(h); }); }
	return p;
}
} // namespace ops
