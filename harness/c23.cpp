// C23: any use of the API on any finite values: memory safety, defined behaviour, disciplined errors
#include <utility>
#include <list>
#include <set>
#include "ops.hpp"
using namespace ops;
#ifndef FT
#define FT double
#endif
typedef FT F; typedef PoolT<F> Pool; typedef Point2d_<F> PT;
static const std::vector<OpD<F>>& tab() { static auto t=table<F>(); return t; }
static Ans globals() { Ans a; fd(a,(double)thr::nullDistance()); fd(a,(double)thr::nullOrthogDistance()); fd(a,(double)thr::nullAngleValue()); fd(a,(double)thr::nullDenom()); fd(a,(double)thr::nullDeter()); fd(a,thr::doNotCheckRadius()); fd(a,(int)err::printWarnings()); fd(a,(long)std::cerr.flags()); svg(a,Segment(1,2,3,4)); return a; }
struct Vals { int mode; mon::Rng& r;
	F co() { auto big=[&]( double e ) { return (F)(LD)( (r.coin()?1:-1)*std::pow(10.,r.d(0,1))*std::pow(10.,e) ); };
		switch( mode ) { case 0: return (F)(LD)r.i(-2,2); case 1: return (F)(LD)( r.i(0,2)+(r.coin(2)?0:(r.coin()?1:-1)*std::pow(10.,(double)-r.i(8,14))) ); case 2: return r.coin(3)?(F)(LD)r.i(-3,3):big( (double)r.i(3,sizeof(F)==4?36:300) ); case 3: return r.coin(3)?(F)0:big( (double)-r.i(3,sizeof(F)==4?36:300) ); case 4: return big( (double)r.i(-6,7) ); case 5: { static const double k[]={0,1,-1,0.5,2,1e-10,1.0000000001,-1e-10,3,1e10}; return (F)(LD)k[r.i(0,9)]; } default: return (F)(LD)r.d(-5,5); } }
	F pos() { F v=co(); return v<0?(F)-v:v; }
	PT pt() { F x=co(); return PT( x, r.coin(6)?x:co() ); }
	std::vector<PT> pts( int lo, int hi ) { std::vector<PT> v; int n=(int)r.i(lo,hi); for( int i=0;i<n;i++ ) v.push_back( !v.empty()&&r.coin(7)?v[r.next()%v.size()]:pt() ); return v; }
};
static std::string what_; // last call, for the report
template<typename Fn> void call( mon::Case& c, const std::string& name, Fn f )
{
	what_=name; if( mon::st().prog ) { auto s=c.desc+name; auto n=std::min( s.size(), sizeof(mon::st().prog->input)-1 ); auto off=s.size()-n; std::memcpy( mon::st().prog->input, s.data()+off, n ); mon::st().prog->input[n]=0; }
	try { f(); c.chk("no-forbidden-exception",true); } catch( const std::runtime_error& ) { c.cls("refused"); c.chk("no-forbidden-exception",true); } catch( const std::exception& e ) { c.chk("refusals-are-runtime_error",false,name+": "+typeid(e).name()+" "+e.what()); } catch( ... ) { c.chk("no-forbidden-exception",false,name+": not a std::exception"); }
}
static Pool degenerate( mon::Case& c, Vals& v, int n )
{
	Pool p; auto& r=c.rng; auto T=[&]( const char* nm, auto f ) { call(c,nm,f); };
	for( auto& q: v.pts(1,n+2) ) p.pt.push_back(q); { PT inf; if( r.coin(4) ) T("pt*line",[&]{ Homogr_<F> h; h.set(2,0,(F)1); p.pt.push_back( h*PT((F)-1,(F)2) ); }); (void)inf; }
	auto any=[&]() { return r.coin(2)&&!p.pt.empty()?p.pt[r.next()%p.pt.size()]:v.pt(); };
	for( int k=0;k<n;k++ )
	{
		T("Line2d(pt,pt)",[&]{ p.li.push_back( Line2d_<F>(any(),any()) ); }); T("Line2d(a,b,c)",[&]{ if( r.coin(3) ) p.li.push_back( Line2d_<F>(v.co(),v.co(),v.co()) ); }); T("Segment",[&]{ p.sg.push_back( Segment_<F>(any(),any()) ); }); T("OSegment",[&]{ p.os.push_back( OSegment_<F>(any(),any()) ); }); T("FRect",[&]{ p.fr.push_back( FRect_<F>(any(),any()) ); }); T("FRect(c,w,h)",[&]{ if( r.coin(3) ) p.fr.push_back( FRect_<F>(any(),v.pos(),v.pos()) ); }); T("Circle",[&]{ p.ci.push_back( Circle_<F>(any(),v.pos()) ); }); T("Circle3",[&]{ if( r.coin(3) ) p.ci.push_back( Circle_<F>(any(),any(),any()) ); }); T("Ellipse",[&]{ p.el.push_back( Ellipse_<F>(any(),v.co(),v.co(),(F)(LD)r.d(-4,4)) ); });
		T("CPolyline",[&]{ p.cp.push_back( CPolyline_<F>(v.pts(0,7)) ); }); T("CPolyline regular",[&]{ if( r.coin(4) ) p.cp.push_back( CPolyline_<F>(v.pos(),(size_t)r.i(0,6)) ); }); T("OPolyline",[&]{ p.op.push_back( OPolyline_<F>(v.pts(0,7)) ); }); T("Homogr",[&]{ Homogr_<F> h; int m=(int)r.i(0,4); for( int q=0;q<m;q++ ) switch( r.i(0,4) ) { case 0: h.addTranslation(v.co(),v.co()); break; case 1: h.addRotation((F)(LD)r.d(-4,4)); break; case 2: h.addScale(v.co(),v.co()); break; case 3: h.set((size_t)r.i(0,2),(size_t)r.i(0,2),v.co()); break; default: h.set(2,(size_t)r.i(0,2),v.co()); } p.H.push_back(h); });
	}
	if( p.cp.empty()&&r.coin() ) p.cp.push_back( CPolyline_<F>() ); if( r.coin(5) ) p.op.push_back( OPolyline_<F>() ); if( r.coin(8) ) { p.ci.push_back( Circle_<F>() ); p.el.push_back( Ellipse_<F>() ); p.fr.push_back( FRect_<F>() ); p.sg.push_back( Segment_<F>() ); p.os.push_back( OSegment_<F>() ); p.li.push_back( Line2d_<F>() ); }
	return p;
}
static void describe( mon::Case& c, const Pool& p ) { std::ostringstream s; s<<std::setprecision(17); auto L=[&]( const char* n, auto& v ) { s<<n<<":"; for( auto& o: v ) { s<<" "<<o; } s<<"; "; }; L("pt",p.pt); L("li",p.li); L("sg",p.sg); L("os",p.os); L("fr",p.fr); L("ci",p.ci); L("cp",p.cp); L("op",p.op); (void)L; c.put(s.str()); }
static void query( mon::Case& c, const Pool& p )
{
	auto& r=c.rng; auto& d=tab()[r.next()%tab().size()]; size_t i=(size_t)r.i(0,6), j=(size_t)r.i(0,6); Ans a; call(c,d.name+"("+std::to_string(i)+","+std::to_string(j)+")",[&]{ d.f(p,i,j,a); });
}
SECTION(queries,9000)
{
	auto& r=c.rng; Vals v{(int)(c.idx%7),r}; c.put("mode="+std::to_string(v.mode)+" "); auto g=globals(); auto p=degenerate(c,v,(int)r.i(1,3)); describe(c,p); for( int k=0;k<25;k++ ) query(c,p); c.chkf("settings-unchanged",globals()==g,[&]( std::ostream& s ) { s<<"after "<<what_; });
}
// histories of moves, rebuilds and queries
static void mutateAny( mon::Case& c, Pool& p, Vals& v )
{
	auto& r=c.rng; auto pickI=[&]( auto& w ) -> size_t { return r.next()%w.size(); }; auto T=[&]( const std::string& nm, auto f ) { call(c,nm,f); }; auto anyPt=[&]() { return p.pt.empty()||r.coin(2)?v.pt():p.pt[r.next()%p.pt.size()]; };
	auto moves=[&]( auto& w, const char* nm ) { if( w.empty() ) return; size_t i=pickI(w); std::string N=nm; switch( r.i(0,3) ) { case 0: T(N+".translate",[&]{ w[i].translate(v.co(),v.co()); }); break; case 1: T(N+".moveTo",[&]{ w[i].moveTo(anyPt()); }); break; case 2: T(N+"=",[&]{ w[i]=w[pickI(w)]; }); break; default: T(N+" = H*",[&]{ if( p.H.empty() ) return; auto q=p.H[pickI(p.H)]*w[i]; using R=std::decay_t<decltype(q)>; using O=std::decay_t<decltype(w[i])>; if constexpr( std::is_same<R,O>::value ) w[i]=q; }); } };
	auto poly=[&]( auto& w, const char* nm ) { if( w.empty() ) return; size_t i=pickI(w); std::string N=nm; switch( r.i(0,8) ) { case 0: T(N+".set",[&]{ w[i].set(v.pts(0,8)); }); break; case 1: T(N+".minimize",[&]{ w[i].minimize(); }); break; case 2: T(N+".rotate",[&]{ static const Rotate k[]={Rotate::CW,Rotate::CCW,Rotate::Full,Rotate::VMirror,Rotate::HMirror}; w[i].rotate(k[r.i(0,4)]); }); break; case 3: T(N+".rotate pt",[&]{ w[i].rotate(Rotate::CCW,anyPt()); }); break; case 4: T(N+".clear",[&]{ w[i].clear(); }); break; case 5: T(N+".rotate own pt",[&]{ if( w[i].size() ) w[i].rotate(Rotate::CW,w[i].getPoint(r.next()%w[i].size())); }); break; case 6: T(N+" self =",[&]{ auto& q=w[i]; w[i]=q; }); break; case 7: T(N+" ==",[&]{ (void)(w[i]==w[pickI(w)]); }); break; default: T(N+".translate all",[&]{ for( auto& q: w ) q.translate(v.co(),v.co()); }); } };
	switch( r.i(0,13) )
	{
		case 0: moves(p.pt,"Point2d"); break; case 1: moves(p.sg,"Segment"); break; case 2: moves(p.os,"OSegment"); break; case 3: moves(p.fr,"FRect"); break; case 4: moves(p.ci,"Circle"); break; case 5: moves(p.el,"Ellipse"); break; case 6: moves(p.cp,"CPolyline"); break; case 7: moves(p.op,"OPolyline"); break; case 8: poly(p.cp,"CPolyline"); break; case 9: poly(p.op,"OPolyline"); break;
		case 10: if( !p.ci.empty() ) { size_t i=pickI(p.ci); switch( r.i(0,5) ) { case 0: T("Circle.set pts",[&]{ p.ci[i].set(v.pts(0,9)); }); break; case 1: T("Circle.set 3",[&]{ p.ci[i].set(anyPt(),anyPt(),anyPt()); }); break; case 2: T("Circle.set 2",[&]{ p.ci[i].set(anyPt(),anyPt()); }); break; case 3: T("Circle.set r",[&]{ p.ci[i].set(v.co(),v.co(),v.co()); }); break; case 4: T("Circle.set c r",[&]{ p.ci[i].set(anyPt(),v.co()); }); break; default: T("Circle.radius()=",[&]{ p.ci[i].radius()=v.co(); }); } } break;
		case 11: if( !p.H.empty() ) { size_t i=pickI(p.H); switch( r.i(0,8) ) { case 0: T("H.inverse",[&]{ p.H[i].inverse(); }); break; case 1: T("H.transpose",[&]{ p.H[i].transpose(); }); break; case 2: T("H.add",[&]{ p.H[i].addTranslation(v.co(),v.co()).addScale(v.co()).addRotation(v.co()); }); break; case 3: T("H.setters",[&]{ switch( r.i(0,3) ) { case 0: p.H[i].setTranslation(v.co(),v.co()); break; case 1: p.H[i].setScale(v.co(),v.co()); break; case 2: p.H[i].setRotation(v.co()); break; default: p.H[i].init(); } }); break; case 4: T("H.buildFrom4Points",[&]{ p.H[i].buildFrom4Points(v.pts(r.coin(5)?0:4,r.coin(5)?6:4),v.pts(4,4),(int)r.i(0,2)); }); break; case 5: T("H*H",[&]{ p.H[i]=p.H[i]*p.H[pickI(p.H)]; }); break; case 6: T("H.set",[&]{ p.H[i].set((size_t)r.i(0,2),(size_t)r.i(0,2),v.co()); }); break; case 7: T("H.init",[&]{ std::vector<std::vector<double>> m(r.coin(6)?2:3,std::vector<double>(r.coin(6)?2:3)); for( auto& q: m ) for( auto& x: q ) x=(double)v.co(); p.H[i]=m; }); break; default: T("H.applyTo",[&]{ p.H[i].applyTo(p.pt); p.H[i].applyTo(p.sg); p.H[i].applyTo(p.cp); }); } } break;
		case 12: switch( r.i(0,4) ) { case 0: if( !p.fr.empty() ) T("FRect.set",[&]{ p.fr[pickI(p.fr)].set(anyPt(),anyPt()); }); break; case 1: if( !p.sg.empty() ) T("Segment.set",[&]{ p.sg[pickI(p.sg)].set(anyPt(),anyPt()); }); break; case 2: if( !p.os.empty() ) T("OSegment.set",[&]{ p.os[pickI(p.os)].set(anyPt(),anyPt()); auto m=-p.os[0]; (void)m; }); break; case 3: if( !p.li.empty() ) T("Line=",[&]{ p.li[pickI(p.li)]=anyPt()*anyPt(); }); break; default: if( p.li.size()>1 ) T("pt=line*line",[&]{ p.pt.push_back( p.li[0]*p.li[1] ); }); } break;
		default: switch( r.i(0,4) ) { case 0: T("CPolyline from FRect",[&]{ if( !p.fr.empty() ) p.cp.push_back( CPolyline_<F>(p.fr[0]) ); }); break; case 1: T("parallelogram",[&]{ CPolyline_<F> q; q.setParallelogram(anyPt(),anyPt(),anyPt()); p.cp.push_back(q); }); break; case 2: T("regular",[&]{ CPolyline_<F> q; q.set(v.pos(),(size_t)r.i(0,9)); p.cp.push_back(q); }); break; case 3: T("offset",[&]{ if( !p.cp.empty() ) { OffsetPolyParams o; o._angleSplit=r.coin(); p.cp.push_back( p.cp[0].getOffsetPoly(v.co(),o) ); } }); break; default: T("union",[&]{ if( p.fr.size()>1 ) { p.cp.push_back( p.fr[0]|p.fr[1] ); (void)(p.fr[0]&p.fr[1]); } }); }
	}
	if( p.cp.size()>6 ) p.cp.resize(4); if( p.pt.size()>12 ) p.pt.resize(6);
}
SECTION(histories,7000)
{
	auto& r=c.rng; Vals v{(int)(c.idx%7),r}; c.put("mode="+std::to_string(v.mode)+" "); auto g=globals(); auto p=degenerate(c,v,(int)r.i(1,3)); describe(c,p); for( int k=0;k<16;k++ ) { mutateAny(c,p,v); c.put(what_+" "); query(c,p); } c.chkf("settings-unchanged",globals()==g,[&]( std::ostream& s ) { s<<"after "<<what_; });
}
// free functions over containers of any size, any kind of container
template<typename C> void containers( mon::Case& c, const C& w, const Pool& p, const char* kind )
{
	auto& r=c.rng; std::string K=kind; PT q=p.pt.empty()?PT():p.pt[0]; Ans a; size_t n=w.size(); auto must=[&]( const char* nm, auto f ) { c.throws( std::string(nm)+"-of-nothing-refused",f ); };
	call(c,K+" getBB",[&]{ fd(a,getBB(w)); }); call(c,K+" findNearest",[&]{ fd(a,findNearestPoint(q,w)); }); call(c,K+" findFarthest",[&]{ fd(a,findFarthestPoint(q,w)); }); call(c,K+" extremes",[&]{ fd(a,getLmPoint(w)); fd(a,getRmPoint(w)); fd(a,getTmPoint(w)); fd(a,getBmPoint(w)); }); call(c,K+" Circle",[&]{ Circle_<F> k; k.set(w); fd(a,k); }); call(c,K+" hull",[&]{ fd(a,convexHull(w)); }); call(c,K+" CPolyline",[&]{ CPolyline_<F> k(w); fd(a,k); fd(a,k.size()); }); call(c,K+" OPolyline",[&]{ OPolyline_<F> k(w); fd(a,k); }); call(c,K+" inside",[&]{ if constexpr( !std::is_same<C,std::array<PT,3>>::value ) if( !p.ci.empty() ) { auto o=getPtsInside(w,p.ci[0]); fd(a,(size_t)o.size()); } });
	call(c,K+" H*",[&]{ if( !p.H.empty() ) { auto k=w; p.H[0].applyTo(k); } }); call(c,K+" draw",[&]{ img::Image<img::SvgImage> im(20,20); draw(im,w); });
	if( n==0 ) { must("getBB",[&]{ (void)getBB(w); }); must("nearest",[&]{ (void)findNearestPoint(q,w); }); must("circle",[&]{ Circle_<F> k; k.set(w); }); must("leftmost",[&]{ (void)getLmPoint(w); }); }
	(void)r;
}
SECTION(containers,5000)
{
	auto& r=c.rng; Vals v{(int)(c.idx%7),r}; auto g=globals(); auto p=degenerate(c,v,1); auto w=v.pts(0,r.coin(4)?30:4); c.cls("size "+std::to_string(std::min<size_t>(w.size(),5))); { std::ostringstream s; s<<std::setprecision(17); for( auto& q: w ) s<<q<<" "; c.put(s.str()); } switch( r.i(0,2) ) { case 0: containers(c,w,p,"vector"); break; case 1: containers(c,std::list<PT>(w.begin(),w.end()),p,"list"); break; default: { std::array<PT,3> k; for( size_t i=0;i<3&&i<w.size();i++ ) k[i]=w[i]; containers(c,k,p,"array"); } }
	Ans a; std::vector<Segment_<F>> sg; for( size_t i=1;i<w.size();i++ ) call(c,"Segment",[&]{ sg.emplace_back(w[i-1],w[i]); }); call(c,"getCenters",[&]{ fd(a,getCenters(sg)); }); call(c,"getLines",[&]{ fd(a,getLines(sg)); }); call(c,"getBB segs",[&]{ fd(a,getBB(sg)); });
	std::vector<CPolyline_<F>> cp=p.cp; call(c,"getBB polys",[&]{ fd(a,getBB(cp)); }); call(c,"H applied",[&]{ if( !p.H.empty() ) { p.H[0].applyTo(cp); p.H[0].applyTo(sg); } }); c.chkf("settings-unchanged",globals()==g,[&]( std::ostream& s ) { s<<"after "<<what_; });
}
// out-of-range indexes and sizes are refused
SECTION(indexes,1500)
{
	auto& r=c.rng; Vals v{r.coin()?0:6,r}; auto w=v.pts(0,6); CPolyline_<F> cp; OPolyline_<F> op; call(c,"set",[&]{ cp.set(w); }); call(c,"set",[&]{ op.set(w); }); std::ostringstream s; s<<w.size(); c.put(s.str()); const auto& k=cp; const auto& o=op; size_t big=r.coin(3)?(size_t)-1:(size_t)r.i(0,5); auto at=[&]( size_t n ) { return big>1000?big:n+big; };
	c.throws("point-index",[&]{ (void)k.getPoint(at(k.size())); }); c.throws("point-index",[&]{ (void)o.getPoint(at(o.size())); }); c.throws("segment-index",[&]{ (void)k.getSegment(at(k.nbSegs())); }); c.throws("segment-index",[&]{ (void)o.getSegment(at(o.nbSegs())); }); c.throws("segment-index",[&]{ (void)k.getOSegment(at(k.nbSegs())); }); c.throws("segment-index",[&]{ (void)o.getOSegment(at(o.nbSegs())); });
	Homogr_<F> h; c.throws("matrix-index",[&]{ (void)h.value(at(3),0); }); c.throws("matrix-index",[&]{ (void)h.value(0,at(3)); }); c.throws("matrix-index",[&]{ h.set(at(3),1,(F)1); }); c.throws("matrix-size",[&]{ std::vector<std::vector<double>> m(2,std::vector<double>(3)); Homogr_<F> q(m); }); c.throws("matrix-size",[&]{ std::vector<std::vector<double>> m(3,std::vector<double>(3)); m[1].pop_back(); Homogr_<F> q; q=m; });
	c.throws("four-points-size",[&]{ Homogr_<F> q; q.buildFrom4Points(std::vector<PT>(3),std::vector<PT>(4)); }); c.throws("four-points-size",[&]{ Homogr_<F> q; q.buildFrom4Points(std::vector<PT>(4),std::vector<PT>(5)); });
	c.throws("radius-null",[&]{ Circle_<F> q(PT(),(F)0); }); c.throws("regular-polygon-size",[&]{ CPolyline_<F> q; q.set((F)3,(size_t)r.i(0,2)); }); c.throws("flat-rectangle",[&]{ F x=v.co(); FRect_<F> q(PT(x,(F)1),PT(x,(F)2)); }); c.throws("line-of-one-point",[&]{ auto q=v.pt(); Line2d_<F> l(q,q); });
	c.throws("singular-inverse",[&]{ Homogr_<F> q; for( int i=0;i<3;i++ ) q.set(1,i,(F)0); q.inverse(); }); c.throws("image-size",[&]{ img::Image<img::SvgImage> im(10,10); im.setSize(0,0); throw std::runtime_error("not claimed"); });
}
MON_MAIN
