#include "h2.hpp"
#include <list>
#include <array>
#include <memory>
#include <typeinfo>
using namespace gen;
#ifdef OTHER_TYPES
typedef float FT0; typedef long double FT1;
#else
typedef double FT0; typedef double FT1;
#endif
// Outcome of one call: the value, or which exception came out
struct Out { bool thrown=false; std::string ex; LD v=0; std::string s; };
template<typename F> Out run( F f )
{
	Out o; try { auto r=f(); if constexpr( std::is_convertible_v<decltype(r),std::string> ) o.s=r; else o.v=(LD)r; }
	catch( const std::exception& e ) { o.thrown=true; o.ex=typeid(e).name(); } catch( ... ) { o.thrown=true; o.ex="?"; } return o;
}
static std::string show( const Out& o ) { return o.thrown ? "throws "+o.ex : o.s.empty()? str((double)o.v) : o.s.substr(0,400); }
static bool same( const Out& a, const Out& b ) { if( a.thrown||b.thrown ) return a.thrown==b.thrown&&a.ex==b.ex; if( a.s!=b.s ) return false; if( a.v!=a.v ) return b.v!=b.v; if( std::isinf(a.v)||std::isinf(b.v) ) return a.v==b.v; return std::fabs(a.v-b.v)<=1e-12L*std::max((LD)1,std::fabs(a.v)); }
static void agree( mon::Case& c, const std::string& k, const Out& dyn, const Out& stat ) { c.chkf(k,same(dyn,stat),[&](std::ostream&o){ o<<"polymorphic: "<<show(dyn)<<" static: "<<show(stat); }); }
template<typename F> struct Item { Type t; const char* name; size_t size; };
static const char* tname( int k ) { static const char* n[]={"Point2d","Line2d","Segment","OSegment","FRect","Circle","Ellipse","CPolyline","OPolyline"}; return n[k]; }
static Type ttype( int k ) { static const Type n[]={Type::Point2d,Type::Line2d,Type::Segment,Type::OSegment,Type::FRect,Type::Circle,Type::Ellipse,Type::CPolyline,Type::OPolyline}; return n[k]; }
template<typename F> const char* fname() { return std::is_same_v<F,float>?"Float":std::is_same_v<F,double>?"Double":"LongDouble"; }
// calls f with one random object of kind k
template<typename F,typename FN> void with( mon::Case& c, int k, FN f )
{
	auto& r=c.rng; LD R=r.coin(4)?600:40; auto g=[&]{ P p{(LD)(float)r.d(-R/2,R),(LD)(float)r.d(-R/2,R)}; if( r.coin(4) ) p={(LD)r.i(-9,(int)R),(LD)r.i(-9,(int)R)}; return p; }; auto M=[]( P p ){ return Point2d_<F>((F)p.x,(F)p.y); };
	P a=g(), b=g(); while( std::fabs(a.x-b.x)<1||std::fabs(a.y-b.y)<1 ) b=g(); LD rad=(LD)(float)r.d(0.5,(double)R/2); inP(c,"a",a); inP(c,"b",b); c.in("rad",rad); bool dflt=r.coin(12); if( dflt ) c.cls("default-object");
	switch( k )
	{
		case 0: { Point2d_<F> o=dflt?Point2d_<F>():M(a); f(o); break; }
		case 1: { Line2d_<F> o=dflt?Line2d_<F>():Line2d_<F>(M(a),M(b)); f(o); break; }
		case 2: { Segment_<F> o=dflt?Segment_<F>():Segment_<F>(M(a),M(b)); f(o); break; }
		case 3: { OSegment_<F> o=dflt?OSegment_<F>():OSegment_<F>(M(a),M(b)); f(o); break; }
		case 4: { FRect_<F> o=dflt?FRect_<F>():FRect_<F>(M(a),M(b)); f(o); break; }
		case 5: { Circle_<F> o=dflt?Circle_<F>():Circle_<F>(M(a),(F)rad); f(o); break; }
		case 6: { Ellipse_<F> o=dflt?Ellipse_<F>():Ellipse_<F>(M(a),(F)rad,(F)(rad*(0.3+0.6*r.u())),(F)r.d(-3,3)); f(o); break; }
		default:
		{
			std::vector<Point2d_<F>> v; int n=(int)r.i(2,9); while( (int)v.size()<n ) { auto q=M(g()); bool dup=false; for( auto&p:v ) dup=dup||p==q; if( !dup ) v.push_back(q); } if( r.coin(12)&&n>2 ) { for( auto& p:v ) p=Point2d_<F>( p.getX(), (F)3 ); for( size_t i=0;i<v.size();i++ ) v[i]=Point2d_<F>((F)i,(F)3); c.cls("flat"); }
			inV(c,"v",rdv(v)); if( k==7 ) { CPolyline_<F> o; if( !dflt ) o.set(v); f(o); } else { OPolyline_<F> o; if( !dflt ) o.set(v); f(o); }
		}
	}
}
static img::DrawParams params( mon::Case& c ) { img::DrawParams dp; auto& r=c.rng; if( r.coin() ) { dp.setColor((uint8_t)r.i(0,255),(uint8_t)r.i(0,255),(uint8_t)r.i(0,255)); dp.setThickness((uint8_t)r.i(1,9)); dp.showPoints(r.coin()); dp.showIndex(r.coin()); dp.setPointStyle((img::PtStyle)r.i(0,5)); dp.setPointSize((uint8_t)(2*r.i(0,6)+1)); if( r.coin(3) ) dp.setAttrString(r.coin()?"fill=\"red\"":"id=\"k\""); } return dp; }
typedef img::Image<img::SvgImage> Im;
static std::string svg( const Im& im ) { std::ostringstream o; o<<im; return o.str(); }
template<typename O> std::string text( const O& o ) { std::ostringstream s; s<<std::setprecision(17)<<o; return s.str(); }
// documented constants of each type
template<typename O> void constants( mon::Case& c, int k, const O& o )
{
	const std::string n=tname(k); c.chk("type-"+n,o.type()==ttype(k)&&type(o)==ttype(k)&&n==getString(o.type())); c.chk("dtype-"+n,o.dtype()==dtype(o)&&std::string(getString(o.dtype()))==fname<typename O::FType>());
	static const size_t sz[]={1,0,2,2,4,1,1}; size_t s; if constexpr( std::is_same_v<O,CPolyline_<typename O::FType>>||std::is_same_v<O,OPolyline_<typename O::FType>> ) s=o.getPts().size(); else s=sz[k]; c.chk("size-"+n,o.size()==s&&(size_t)size(o)==s);
	if( k<4||k==8 ) c.chk("null-area-"+n,o.area()==0&&area(o)==0); if( k==0 ) c.chk("null-length",o.length()==0&&length(o)==0); if( k==1 ) c.throws("line-length-throws",[&]{ (void)o.length(); });
	agree(c,"free-length-"+n,run([&]{ return length(o); }),run([&]{ return o.length(); })); agree(c,"free-area-"+n,run([&]{ return area(o); }),run([&]{ return o.area(); }));
}
#ifdef HOMOG2D_ENABLE_VRTP
template<typename F> void variant( mon::Case& c, int k )
{
	with<F>(c,k,[&]( const auto& o )
	{
		typedef std::decay_t<decltype(o)> O; const std::string n=std::string(tname(k)); constants(c,k,o); std::vector<CommonType_<F>> box; box.push_back(o); const CommonType_<F>& v=box[0]; const std::string before=text(o);
		agree(c,"v-type-"+n,run([&]{ return (int)type(v); }),run([&]{ return (int)o.type(); })); agree(c,"v-dtype-"+n,run([&]{ return (int)dtype(v); }),run([&]{ return (int)o.dtype(); })); agree(c,"v-size-"+n,run([&]{ return size(v); }),run([&]{ return o.size(); }));
		agree(c,"v-area-"+n,run([&]{ return area(v); }),run([&]{ return o.area(); })); agree(c,"v-length-"+n,run([&]{ return length(v); }),run([&]{ return o.length(); }));
		agree(c,"f-type-"+n,run([&]{ return (int)std::visit(fct::TypeFunct{},v); }),run([&]{ return (int)o.type(); })); agree(c,"f-area-"+n,run([&]{ return std::visit(fct::AreaFunct{},v); }),run([&]{ return o.area(); })); agree(c,"f-length-"+n,run([&]{ return std::visit(fct::LengthFunct{},v); }),run([&]{ return o.length(); })); agree(c,"f-size-"+n,run([&]{ return std::visit(fct::SizeFunct{},v); }),run([&]{ return o.size(); }));
		// drawing
		auto dp=params(c); Im i1(500,400),i2(500,400),i3(500,400); auto d1=run([&]{ o.draw(i1,dp); return svg(i1); }), d2=run([&]{ fct::DrawFunct vde(i2,dp); std::visit(vde,v); return svg(i2); }), d3=run([&]{ draw(i3,box,dp); return svg(i3); }); agree(c,"v-draw-"+n,d2,d1); agree(c,"v-draw-container-"+n,d3,d1);
		{ Im a(500,400),b(500,400); auto e1=run([&]{ o.draw(a); return svg(a); }), e2=run([&]{ draw(b,box); return svg(b); }); agree(c,"v-draw-default-"+n,e2,e1); Im d(500,400); agree(c,"free-draw-"+n,run([&]{ draw(d,o,dp); return svg(d); }),d1); Im e(500,400); agree(c,"image-draw-"+n,run([&]{ e.draw(o,dp); return svg(e); }),d1); }
		// transformation: same result as the product, held as the right type
		Homogr_<F> H; LD an=c.rng.d(-3,3), tx=c.rng.d(-20,20), sc=c.rng.d(0.3,3); c.in("H",an,tx,sc); H.setRotation((F)an); H.addTranslation((F)tx,(F)1); H.addScale((F)sc);
		auto t1=run([&]{ auto p=H*o; return std::to_string((int)p.type())+text(p); }); auto vt=[&]( const CommonType_<F>& w ) { return std::to_string((int)type(w))+std::visit([]( const auto& z ){ return text(z); },w); };
		agree(c,"v-transform-"+n,run([&]{ return vt(transform(H,v)); }),t1); agree(c,"o-transform-"+n,run([&]{ return vt(transform(H,o)); }),t1); agree(c,"f-transform-"+n,run([&]{ fct::TransformFunct<F> f{ Homogr_<F>(H) }; volatile char pad[512]; for( auto& z: pad ) z=1; return vt(std::visit(f,v)); }),t1);
		{ auto w=box; bool thr=false; try { for( auto& e: w ) e=transform(H,e); } catch( const std::exception& ) { thr=true; } agree(c,"v-transform-inplace-"+n,run([&]{ if( thr ) throw std::runtime_error("x"); return vt(w[0]); }),t1); }
		// bounding box of a container
		{ std::pair<P,P> b1,b2; auto grab=[]( const auto& b, std::pair<P,P>& q ) { auto z=b.getPts(); q={rd(z.first),rd(z.second)}; return 1; };
			auto r1=run([&]{ return grab(getBB(box),b1); }), r2=run([&]{ if constexpr( trait::HasBB<O>::value ) { if constexpr( std::is_same_v<O,CPolyline_<F>>||std::is_same_v<O,OPolyline_<F>> ) if( o.size()==2 ) return grab(getBB(o.getPts()),b2); return grab(o.getBB(),b2); } else { if( k<2 ) throw std::runtime_error("no BB"); if constexpr( trait::IsSegment<O>::value ) return grab(getBB(std::vector<Point2d_<F>>{o.getPts().first,o.getPts().second}),b2); return 0; } });
			LD T=8*(LD)std::max<LD>(std::numeric_limits<F>::epsilon(),std::numeric_limits<NT>::epsilon())*2000; c.chkf("v-boundingbox-"+n,same(r1,r2)&&(r1.thrown||(ref::dist(b1.first,b2.first)<=T&&ref::dist(b1.second,b2.second)<=T)),[&](std::ostream&q){ q<<show(r1)<<str(b1.first)<<str(b1.second)<<" static "<<show(r2)<<str(b2.first)<<str(b2.second); }); }
		// unwrap
		{ O u=fct::VariantUnwrapper{v}; c.chk("unwrap-"+n,text(u)==before&&u.type()==o.type()); O u2=std::get<O>(v); c.chk("unwrap-equal-"+n,text(u2)==text(u)); try { if( k==0 ) { Circle_<F> q=fct::VariantUnwrapper{v}; (void)q; } else { Point2d_<F> q=fct::VariantUnwrapper{v}; (void)q; } c.chk("unwrap-wrong-type",false,"accepted"); } catch( const std::bad_variant_access& ) { c.chk("unwrap-wrong-type",true); } }
		c.chk("unchanged-"+n,text(o)==before&&text(std::get<O>(v))==before);
		(void)t1;
	});
}
SECTION(variant,9000) { int k=(int)(c.idx%9), f=(int)(c.idx/9%2); c.in("kind",k,f); c.cls(std::string(tname(k))+"/"+(f==0?fname<FT0>():fname<FT1>())); if( f==0 ) variant<FT0>(c,k); else variant<FT1>(c,k); }
// containers holding several kinds
SECTION(containers,3000)
{
	bool flat=false; int n=(int)c.rng.i(1,8); std::vector<CommonType> v; std::list<CommonType> li; std::vector<Out> ar,le; Im want(300,300); auto dp=params(c); Poly bb; for( int i=0;i<n;i++ ) { int k=(int)c.rng.i(0,8); c.in("kind",k); with<NT>(c,k,[&]( const auto& o ) { v.push_back(o); li.push_back(o); ar.push_back(run([&]{ return o.area(); })); le.push_back(run([&]{ return o.length(); })); try { o.draw(want,dp); } catch( const std::exception& ) {}
		typedef std::decay_t<decltype(o)> O; if constexpr( std::is_same_v<O,Point2d> ) bb.push_back(rd(o)); else if constexpr( trait::IsSegment<O>::value ) { bb.push_back(rd(o.getPts().first)); bb.push_back(rd(o.getPts().second)); } else if constexpr( std::is_same_v<O,CPolyline>||std::is_same_v<O,OPolyline> ) { LD a=1e300L,b=-1e300L,d=a,e=b; for( auto& p: o.getPts() ) { P q=rd(p); bb.push_back(q); a=std::min(a,q.x); b=std::max(b,q.x); d=std::min(d,q.y); e=std::max(e,q.y); } flat=flat||(o.size()>2&&(b-a<1e-6L||e-d<1e-6L)); } else if constexpr( trait::HasBB<O>::value ) { auto q=o.getBB().getPts(); bb.push_back(rd(q.first)); bb.push_back(rd(q.second)); } }); }
	int i=0; for( auto& e: v ) { agree(c,"area",run([&]{ return area(e); }),ar[i]); agree(c,"length",run([&]{ return length(e); }),le[i]); i++; }
	Im g1(300,300),g2(300,300); bool thr=false; try { draw(g1,v,dp); draw(g2,li,dp); } catch( const std::exception& ) { thr=true; } if( !thr ) c.chkf("draw",svg(g1)==svg(want)&&svg(g2)==svg(want),[&](std::ostream&o){ o<<svg(g1)<<" expected "<<svg(want); });
	LD x0=1e300L,x1=-1e300L,y0=1e300L,y1=-1e300L; for( auto&p:bb ) { x0=std::min(x0,p.x); x1=std::max(x1,p.x); y0=std::min(y0,p.y); y1=std::max(y1,p.y); } if( flat ) c.cls("flat polyline: no box of its own"); else if( !bb.empty()&&x1-x0>1e-6L&&y1-y0>1e-6L ) { auto chkBB=[&]( auto& w, const char* key ) { auto q=getBB(w).getPts(); P a=rd(q.first),b=rd(q.second); c.chkf(key,std::fabs(a.x-x0)+std::fabs(a.y-y0)+std::fabs(b.x-x1)+std::fabs(b.y-y1)<1e-9L*700,[&](std::ostream&o){ o<<str(a)<<str(b)<<" expected "<<x0<<","<<y0<<" "<<x1<<","<<y1; }); }; chkBB(v,"bb-vector"); chkBB(li,"bb-list"); c.cls("bb"); } else c.throws("bb-none",[&]{ (void)getBB(v); });
	// in place transformation of the whole set
	Homogr H; H.setRotation((NT)c.rng.d(-3,3)); H.addTranslation(3,4); auto w=v; i=0; for( auto& e: w ) { Type t0=type(e); try { e=transform(H,e); Type t1=type(e); c.chk("transformed-type",t1==(t0==Type::FRect?Type::CPolyline:t0==Type::Circle?Type::Ellipse:t0)); if( t0!=Type::Line2d&&size(e)>0 ) { NT l0=length(v[i]), l1=length(e); c.near("isometry-length",l1,l0,1e-6L*(1+(LD)l0)); NT a0=area(v[i]); if( t0!=Type::CPolyline ) c.near("isometry-area",area(e),a0,1e-6L*(1+(LD)a0)); } } catch( const std::runtime_error& ) { c.chk("transform-throws-only-empty-or-not-simple",t0==Type::CPolyline||t0==Type::OPolyline,getString(t0)); } i++; }
}
#endif
#ifdef HOMOG2D_ENABLE_PRTP
template<typename F> void pointer( mon::Case& c, int k )
{
	with<F>(c,k,[&]( const auto& o )
	{
		typedef std::decay_t<decltype(o)> O; const std::string n=tname(k); constants(c,k,o); std::vector<std::shared_ptr<rtp::Root>> v; v.push_back(std::make_shared<O>(o)); const rtp::Root& p=*v[0]; const std::string before=text(o);
		agree(c,"p-type-"+n,run([&]{ return (int)p.type(); }),run([&]{ return (int)o.type(); })); agree(c,"p-size-"+n,run([&]{ return p.size(); }),run([&]{ return o.size(); })); agree(c,"p-area-"+n,run([&]{ return p.area(); }),run([&]{ return o.area(); })); agree(c,"p-length-"+n,run([&]{ return p.length(); }),run([&]{ return o.length(); }));
		auto dp=params(c); Im i1(500,400),i2(500,400),a(500,400),b(500,400); agree(c,"p-draw-"+n,run([&]{ p.draw(i2,dp); return svg(i2); }),run([&]{ o.draw(i1,dp); return svg(i1); })); agree(c,"p-draw-default-"+n,run([&]{ p.draw(b); return svg(b); }),run([&]{ o.draw(a); return svg(a); }));
		agree(c,"p-stream-"+n,run([&]{ return text(p); }),run([&]{ return std::string("type=")+tname(k)+"\n"+before; }));
		auto q=std::dynamic_pointer_cast<O>(v[0]); c.chk("p-cast-"+n,q&&text(*q)==before&&q->type()==ttype(k)); if( k!=5 ) c.chk("p-cast-wrong-"+n,!std::dynamic_pointer_cast<Circle_<F>>(v[0])); c.chk("unchanged-"+n,text(o)==before);
	});
}
SECTION(pointer,9000) { int k=(int)(c.idx%9), f=(int)(c.idx/9%2); c.in("kind",k,f); c.cls(std::string(tname(k))+"/"+(f==0?fname<FT0>():fname<FT1>())); if( f==0 ) pointer<FT0>(c,k); else pointer<FT1>(c,k); }
SECTION(pointer_set,2000)
{
	std::vector<std::unique_ptr<rtp::Root>> v; Im want(300,300),got(300,300); auto dp=params(c); std::vector<int> ks; LD A=0; size_t S=0; int n=(int)c.rng.i(1,9); for( int i=0;i<n;i++ ) { int k=(int)c.rng.i(0,8); if( k==7 ) k=5; c.in("kind",k); ks.push_back(k); with<NT>(c,k,[&]( const auto& o ) { v.push_back(std::make_unique<std::decay_t<decltype(o)>>(o)); A+=o.area(); S+=o.size(); o.draw(want,dp); }); }
	LD a=0; size_t s=0; for( size_t i=0;i<v.size();i++ ) { a+=v[i]->area(); s+=v[i]->size(); v[i]->draw(got,dp); c.chk("type",v[i]->type()==ttype(ks[i])); } c.near("total-area",a,A,1e-9L*(1+A)); c.chk("total-size",s==S); c.chk("drawing",svg(got)==svg(want));
}
#endif
MON_MAIN
