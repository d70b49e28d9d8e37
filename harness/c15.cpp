#include "h2.hpp"
#include <list>
#include <array>
#include <variant>
using namespace gen;
struct B { LD x0=1e300L,y0=1e300L,x1=-1e300L,y1=-1e300L; void add( P p ) { x0=std::min(x0,p.x); x1=std::max(x1,p.x); y0=std::min(y0,p.y); y1=std::max(y1,p.y); } void add( const B& b ) { if( b.some() ) { add(P{b.x0,b.y0}); add(P{b.x1,b.y1}); } } bool some() const { return x0<=x1; } LD thin() const { return std::min(x1-x0,y1-y0); } };
template<typename F> using Var = std::variant<Point2d_<F>,Segment_<F>,OSegment_<F>,FRect_<F>,Circle_<F>,Ellipse_<F>,CPolyline_<F>,OPolyline_<F>>;
template<typename F> struct Obj { Var<F> v; B bb; bool own=true, ell=false, flatPoly=false; }; // own: has a bounding box by itself
static P grid( mon::Rng& r, int R, bool lat ) { if( lat ) return ipt(r,R); return P{(LD)(float)r.d(-R,R),(LD)(float)r.d(-R,R)}; }
template<typename F> Obj<F> make( mon::Case& c, int t, bool lat )
{
	Obj<F> o; auto& r=c.rng; int R=(int)r.i(1,lat?12:60); auto M=[]( P p ) { return Point2d_<F>((F)p.x,(F)p.y); }; P a=grid(r,R,lat); std::ostringstream s; s<<std::setprecision(17)<<t<<":";
	auto two=[&]() { P b=grid(r,R,lat); if( r.coin(3) ) ( r.coin()? b.x=a.x : b.y=a.y ); if( b==a ) b=a+P{1,0}; o.bb.add(a); o.bb.add(b); o.own=false; s<<str(a)<<str(b); return b; };
	switch( t )
	{
		case 0: o.v=M(a); o.bb.add(a); o.own=false; s<<str(a); break;
		case 1: { P b=two(); o.v=Segment_<F>(M(a),M(b)); break; }
		case 2: { P b=two(); o.v=OSegment_<F>(M(a),M(b)); break; }
		case 3: { P b=a+P{(LD)r.i(1,6),(LD)r.i(1,6)}; if( r.coin() ) std::swap(a.x,b.x); o.bb.add(a); o.bb.add(b); o.v=FRect_<F>(M(a),M(b)); s<<str(a)<<str(b); break; }
		case 4: { LD k=lat?(LD)r.i(1,9):(LD)(float)r.d(0.1,20); o.bb.add(a-P{k,k}); o.bb.add(a+P{k,k}); o.v=Circle_<F>(M(a),(F)k); s<<str(a)<<k; break; }
		case 5: { LD A=r.d(1,20),Bb=A*r.d(0.3,0.95),t=r.coin(3)?(LD)r.i(-3,3)*ref::PI/4:(LD)r.d(-3,3); A=(float)A;Bb=(float)Bb;t=(float)t; if( r.coin(3) ) t=0; LD w=std::sqrt(A*A*cosl(t)*cosl(t)+Bb*Bb*sinl(t)*sinl(t)),h=std::sqrt(A*A*sinl(t)*sinl(t)+Bb*Bb*cosl(t)*cosl(t)); o.bb.add(a-P{w,h}); o.bb.add(a+P{w,h}); o.ell=true; o.v=Ellipse_<F>((F)a.x,(F)a.y,(F)A,(F)Bb,(F)t); s<<str(a)<<A<<","<<Bb<<","<<t; break; }
		default: { int n=(int)r.i(2,r.coin(60)?300:r.coin(4)?25:6); Poly v; bool fx=r.coin(6),fy=!fx&&r.coin(6); for( int i=0;i<n;i++ ) { P p=grid(r,R,lat); if( fx ) p.x=a.x; if( fy ) p.y=a.y; if( v.empty()||!(p==v.back()) ) v.push_back(p); } while( v.size()>1&&v.back()==v[0] ) v.pop_back(); if( v.size()<2 ) v={a,a+P{2,1}};
			for( auto&p:v ) { o.bb.add(p); s<<str(p); } o.own=o.bb.thin()>0; o.flatPoly=!o.own; std::vector<Point2d_<F>> w; for( auto&p:v ) w.push_back(M(p)); if( t==6 ) o.v=CPolyline_<F>(w); else o.v=OPolyline_<F>(w); }
	}
	c.put(s.str()+"; "); return o;
}
static LD tolOf( bool ell, bool flt, const B& e ) { LD S=1+std::max(std::max(std::fabs(e.x0),std::fabs(e.x1)),std::max(std::fabs(e.y0),std::fabs(e.y1))); return S*(ell?(flt?2e-2L:1e-8L):(flt?2e-7L:1e-13L)); }
template<typename R> void same( mon::Case& c, const std::string& k, const R& g, const B& e, LD T )
{
	auto p=g.getPts(); P a=rd(p.first),b=rd(p.second); c.chkf(k,std::fabs(a.x-e.x0)<=T&&std::fabs(a.y-e.y0)<=T&&std::fabs(b.x-e.x1)<=T&&std::fabs(b.y-e.y1)<=T,[&](std::ostream&o){ o<<"got "<<str(a)<<str(b)<<" expected "<<e.x0<<","<<e.y0<<" "<<e.x1<<","<<e.y1<<" tol "<<T; });
}
struct Out { int thrown=0; std::pair<Point2d_<long double>,Point2d_<long double>> p; const auto& getPts() const { return p; } };
template<typename X,typename Y> Out outcome( const X& x, const Y& y ) { Out o; try { auto r=getBB(x,y).getPts(); o.p.first=r.first; o.p.second=r.second; } catch( const std::runtime_error& ) { o.thrown=1; } catch( ... ) { o.thrown=2; } return o; }
template<typename O> size_t sizeOf( const O& o ) { return std::visit([]( const auto& x ) { return (size_t)x.size(); },o.v); }
SECTION(alone,10000)
{
	int t=(int)c.rng.i(3,7); bool lat=c.rng.coin(), flt=c.rng.coin(4); auto go=[&]( auto o, bool f ) { std::visit([&]( const auto& x ) { typedef std::decay_t<decltype(x)> X; if constexpr( trait::HasBB<X>::value ) { LD T=tolOf(o.ell,f,o.bb); if( o.own ) { same(c,"member",x.getBB(),o.bb,T); same(c,"free",getBB(x),o.bb,T); } else { c.cls("flat"); c.throws("flat-member",[&]{ (void)x.getBB(); }); c.throws("flat-free",[&]{ (void)getBB(x); }); } } },o.v); }; if( flt&&t!=5 ) go(make<float>(c,t,lat),true); else go(make<NT>(c,t,lat),false);
}
template<typename F,typename G> void pairs( mon::Case& c )
{
	bool lat=!c.rng.coin(3); int t1=(int)c.rng.i(0,7),t2=(int)c.rng.i(0,7); c.in("types",t1,t2); auto o1=make<F>(c,t1,lat); auto o2=make<G>(c,t2,lat); B e; e.add(o1.bb); e.add(o2.bb); bool flt=sizeof(F)==4||sizeof(G)==4; if( flt&&(o1.ell||o2.ell) ) { c.skip("float ellipse"); return; } LD T=tolOf(o1.ell||o2.ell,flt,e);
	if( e.thin()!=0 && e.thin()<1e-5L ) { c.skip("nearly flat"); return; } c.cls(std::to_string(std::min(t1,t2))+std::to_string(std::max(t1,t2)));
	bool may=(o1.flatPoly&&sizeOf(o1)>2)||(o2.flatPoly&&sizeOf(o2)>2); // an element that has no bounding box by itself may be refused
	auto one=[&]( const std::string& k, const Out& g ) { if( e.thin()==0 ) c.chkf(k+"no-area",g.thrown==1,[&](std::ostream&o){ o<<"answer or wrong exception "<<g.thrown; }); else if( may ) { c.cls("flat polyline"); if( !g.thrown ) same(c,k+"box",g,e,T); } else if( c.chk(k+"answers",!g.thrown) ) same(c,k+"box",g,e,T); };
	one("",std::visit([]( const auto& x, const auto& y ) { return outcome(x,y); },o1.v,o2.v)); if constexpr( std::is_same_v<F,NT>||std::is_same_v<G,NT> ) one("swapped-",std::visit([]( const auto& x, const auto& y ) { return outcome(y,x); },o1.v,o2.v));
	if constexpr( std::is_same_v<F,G> ) if( o1.bb.thin()==0||o1.bb.thin()>=1e-5L ) { auto g=std::visit([]( const auto& x ) { return outcome(x,x); },o1.v); if( o1.bb.thin()==0 ) c.chk("self-no-area",g.thrown==1); else if( !o1.flatPoly&&c.chk("self-answers",!g.thrown) ) same(c,"self",g,o1.bb,T); }
}
SECTION(pair,24000) { switch( c.rng.i(0,5) ) { case 0: pairs<NT,float>(c); break;
#ifdef MIXED
	case 1: pairs<float,NT>(c); break; case 2: pairs<long double,NT>(c); break; case 3: pairs<float,float>(c); break;
#endif
	default: pairs<NT,NT>(c); } }
SECTION(empty_poly,4000)
{
	int t=(int)c.rng.i(3,7); auto o=make<NT>(c,t,true); if( o.flatPoly ) { c.skip("flat"); return; } LD T=tolOf(o.ell,false,o.bb);
	std::visit([&]( const auto& x ) { auto two=[&]( const auto& e ) { c.quiet("first-empty",[&]{ same(c,"empty-first",getBB(e,x),o.bb,T); }); c.quiet("second-empty",[&]{ same(c,"empty-second",getBB(x,e),o.bb,T); }); c.throws("empty-alone",[&]{ (void)e.getBB(); }); c.throws("empty-alone-free",[&]{ (void)getBB(e); }); c.throws("both-empty",[&]{ (void)getBB(e,e); }); c.throws("empty-and-point",[&]{ (void)getBB(e,Point2d(1,2)); }); c.throws("point-and-empty",[&]{ (void)getBB(Point2d(1,2),e); }); }; two(CPolyline()); two(OPolyline()); },o.v);
}
template<int I,typename F> void cont( mon::Case& c )
{
	typedef std::variant_alternative_t<I,Var<F>> T; bool lat=!c.rng.coin(3); int n=(int)c.rng.i(I==0?2:1,c.rng.coin(5)?40:5); std::vector<T> v; B e; bool bad=false,ell=false; for( int i=0;i<n;i++ ) { auto o=make<F>(c,I,lat); v.push_back(std::get<I>(o.v)); e.add(o.bb); bad=bad||o.flatPoly; ell=ell||o.ell; } bool flt=sizeof(F)==4; LD tol=tolOf(ell,flt,e); if( flt&&ell ) { c.skip("float ellipse"); return; }
	if( e.thin()!=0&&e.thin()<1e-5L ) { c.skip("nearly flat"); return; } c.cls("t"+std::to_string(I)); if( e.thin()==0||bad ) { c.cls("refused"); c.throws("no-area",[&]{ (void)getBB(v); }); return; }
	same(c,"vector",getBB(v),e,tol); std::list<T> l(v.begin(),v.end()); same(c,"list",getBB(l),e,tol); c.rng.shuffle(v); same(c,"shuffled",getBB(v),e,tol); if( n>=3 ) { std::array<T,3> a{v[0],v[1],v[2]}; auto w=std::vector<T>{v[0],v[1],v[2]}; try { auto r=getBB(w); c.chk("array",getBB(a)==r); } catch( const std::runtime_error& ) { c.throws("array-too",[&]{ (void)getBB(a); }); } }
}
template<int I> void conts( mon::Case& c ) { if( c.rng.coin(5) ) cont<I,float>(c); else if( c.rng.coin(5) ) cont<I,long double>(c); else cont<I,NT>(c); }
SECTION(container,16000) { switch( c.rng.i(0,7) ) { case 0: conts<0>(c); break; case 1: conts<1>(c); break; case 2: conts<2>(c); break; case 3: conts<3>(c); break; case 4: conts<4>(c); break; case 5: conts<5>(c); break; case 6: conts<6>(c); break; default: conts<7>(c); } }
SECTION(refused,1)
{
	c.in("fixed",1); c.throws("one-point",[&]{ (void)getBB(std::vector<Point2d>{Point2d(1,2)}); }); c.throws("no-point",[&]{ (void)getBB(std::vector<Point2d>{}); }); c.throws("no-circle",[&]{ (void)getBB(std::vector<Circle>{}); }); c.throws("no-seg",[&]{ (void)getBB(std::list<Segment>{}); }); c.throws("no-poly",[&]{ (void)getBB(std::list<CPolyline>{}); }); c.throws("lines",[&]{ (void)getBB(std::vector<Line2d>(3)); }); c.throws("same-points",[&]{ (void)getBB(std::vector<Point2d>(5)); });
	c.throws("v-segs",[&]{ (void)getBB(std::vector<Segment>{Segment(0,0,0,5),Segment(0,10,0,20)}); });
#ifdef HOMOG2D_ENABLE_VRTP
	c.throws("seg-member",[&]{ (void)Segment(0,0,3,5).getBB(); }); c.throws("oseg-free",[&]{ (void)getBB(OSegment(0,0,3,5)); }); c.throws("line-free",[&]{ (void)getBB(Line2d(0,0,3,5)); }); c.throws("point-free",[&]{ (void)getBB(Point2d(3,5)); });
#endif
}
SECTION(point_pairs,4000)
{
	P p[4]; B e; for( auto&q:p ) { q=ipt(c.rng,6); inP(c,"p",q); e.add(q); } auto a=std::make_pair(mk(p[0]),mk(p[1])), b=std::make_pair(mk(p[2]),mk(p[3])); if( e.thin()==0 ) { c.throws("no-area",[&]{ (void)getBB(a,b); }); return; } same(c,"pairs",getBB(a,b),e,0); same(c,"pairs-swapped",getBB(b,a),e,0); auto m=getMinMax(a,b); c.chk("minmax",rd(m.first)==P{e.x0,e.y0}&&rd(m.second)==P{e.x1,e.y1});
}
#ifdef HOMOG2D_ENABLE_VRTP
SECTION(variants,12000)
{
	std::vector<CommonType_<NT>> v; std::vector<CommonType_<NT>> pure; B e; bool ell=false,unsure=false,out=false; int n=(int)c.rng.i(1,8); bool lat=!c.rng.coin(3);
	for( int i=0;i<n;i++ )
	{
		if( c.rng.coin(7) ) { out=true; c.cls("with line"); v.push_back(Line2d((NT)1,(NT)c.rng.i(1,3),(NT)5)); continue; } if( c.rng.coin(9) ) { out=true; c.cls("with empty"); if( c.rng.coin() ) v.push_back(CPolyline()); else v.push_back(OPolyline()); continue; }
		auto o=make<NT>(c,(int)c.rng.i(0,7),lat); std::visit([&]( const auto& x ) { v.push_back(x); if( o.flatPoly&&x.size()>2 ) unsure=true; },o.v); e.add(o.bb); ell=ell||o.ell; if( o.own ) { B b=o.bb; auto& x=v.back(); LD T=tolOf(o.ell,false,b); same(c,"unit-visit",std::visit(fct::BBFunct{},x),b,T); same(c,"alone",getBB(std::vector<CommonType_<NT>>{x}),b,T); }
	}
	c.in("n",n,(int)out); if( unsure ) { c.skip("flat polyline"); return; } if( !e.some()||e.thin()==0 ) { c.throws("no-area",[&]{ (void)getBB(v); }); std::list<CommonType_<NT>> l(v.begin(),v.end()); c.throws("no-area-list",[&]{ (void)getBB(l); }); return; } if( e.thin()<1e-5L ) { c.skip("nearly flat"); return; } LD T=tolOf(ell,false,e);
	same(c,"vector",getBB(v),e,T); c.rng.shuffle(v); same(c,"shuffled",getBB(v),e,T); std::list<CommonType_<NT>> l(v.begin(),v.end()); same(c,"list",getBB(l),e,T); std::array<CommonType_<NT>,2> a{v[0],v.back()}; std::vector<CommonType_<NT>> w{v[0],v.back()}; try { auto r=getBB(w); c.chk("array",getBB(a)==r); } catch( const std::runtime_error& ) { c.throws("array-too",[&]{ (void)getBB(a); }); }
}
#endif
MON_MAIN
