// C24: queries are pure and order-independent; copies are independent; thresholds
#include "ops.hpp"
using namespace ops;
#ifndef FT
#define FT double
#endif
typedef FT F; typedef PoolT<F> Pool;
static const std::vector<OpD<F>>& tab() { static auto t=table<F>(); return t; }
struct Job { size_t op,i,j; };
static std::string jstr( const Job& q ) { return tab()[q.op].name+"("+std::to_string(q.i)+","+std::to_string(q.j)+")"; }
static PoolOpt rndOpt( mon::Rng& r ) { PoolOpt o; o.n=(int)r.i(2,4); o.ints=r.coin(3); o.range=r.coin(4)?(o.ints?4:0.8):20; return o; }
static Pool build( uint64_t seed, PoolOpt o, bool norm ) { mon::Rng r(seed); auto p=makePool<F>(r,o); if( norm ) normal(p); return p; }
static Ans shot( const Pool& p ) { Ans a; fd(a,p.pt); fd(a,p.li); fd(a,p.sg); fd(a,p.os); fd(a,p.fr); fd(a,p.ci); for( auto& e: p.el ) { fd(a,e); stream(a,e); } fd(a,p.cp); fd(a,p.op); fd(a,p.H); fd(a,(double)thr::nullDistance()); fd(a,(double)thr::nullOrthogDistance()); fd(a,(double)thr::nullAngleValue()); fd(a,(double)thr::nullDenom()); fd(a,(double)thr::nullDeter()); fd(a,thr::doNotCheckRadius()); svg(a,Point2d_<F>((F)7,(F)8)); svg(a,Circle_<F>(Point2d_<F>((F)7,(F)8),(F)2)); fd(a,(int)err::printWarnings()); fd(a,(long)std::cerr.flags()); fd(a,(long)std::cerr.precision()); fd(a,(long)std::cout.flags()); return a; }
// the same questions in different orders, on pools built alike: bit for bit the same answers
SECTION(order,2500)
{
	auto& r=c.rng; PoolOpt o=rndOpt(r); uint64_t seed=r.next(); Pool a=build(seed,o,true), b=build(seed,o,true), pristine=build(seed,o,true); int K=(int)r.i(5,40); std::vector<Job> q; bool focus=r.coin(2); size_t base=r.next()%tab().size();
	for( int k=0;k<K;k++ ) q.push_back( { focus&&k%3? (base+(size_t)r.i(0,40))%tab().size() : (size_t)(r.next()%tab().size()), (size_t)r.i(0,5), (size_t)r.i(0,5) } ); for( int k=0;k<K/3;k++ ) q.push_back( q[r.next()%q.size()] );
	std::vector<Ans> ra; for( auto& j: q ) { ra.push_back( ask(tab()[j.op],a,j.i,j.j) ); c.cls( ra.back().t.find("runtime_error")==std::string::npos?"answer":"refusal" ); } std::vector<size_t> idx(q.size()); for( size_t k=0;k<idx.size();k++ ) idx[k]=k; r.shuffle(idx);
	std::string hist; for( auto k: idx ) { auto rb=ask(tab()[q[k].op],b,q[k].i,q[k].j); if( !c.chkf("same-answer-in-another-order",rb==ra[k],[&]( std::ostream& s ) { s<<jstr(q[k])<<" gave "<<ra[k]<<" then "<<rb<<" after "<<hist; }) ) return; hist+=jstr(q[k])+" "; }
	// later copies of used objects answer like the originals
	Pool cpy(a); for( int k=0;k<6;k++ ) { auto& j=q[r.next()%q.size()]; auto x=ask(tab()[j.op],cpy,j.i,j.j), y=ask(tab()[j.op],a,j.i,j.j); if( !c.chkf("copy-of-a-used-object-answers-the-same",x==y,[&]( std::ostream& s ) { s<<jstr(j)<<" copy "<<x<<" original "<<y; }) ) return; }
	auto sp=shot(pristine); bool pure=shot(a)==sp; c.chkf("queries-change-nothing",pure,[&]( std::ostream& s ) { for( auto& j: q ) { Pool z=build(seed,o,true); (void)ask(tab()[j.op],z,j.i,j.j); if( !(shot(z)==sp) ) { s<<"changed by "<<jstr(j)<<"; "; break; } } }); if( !pure ) return; c.chk("queries-change-nothing-2",shot(b)==sp);
	c.put("n="+std::to_string(K)+" "+jstr(q[0])+"; ");
}
// every operation of the table, on its own: it changes nothing any other getter shows, and asking again gives the same
SECTION(each,600)
{
	auto& r=c.rng; PoolOpt o=rndOpt(r); uint64_t seed=r.next(); Pool a=build(seed,o,true); auto before=shot(a); size_t at=(size_t)c.idx*7; for( size_t k=0;k<24;k++ ) { Job j{ (at+k*37)%tab().size(), (size_t)r.i(0,5), (size_t)r.i(0,5) }; if( k==0 ) c.put(jstr(j)+"; "); auto x=ask(tab()[j.op],a,j.i,j.j), y=ask(tab()[j.op],a,j.i,j.j); c.chkf("asked-twice",x==y,[&]( std::ostream& s ) { s<<jstr(j)<<" "<<x<<" then "<<y; }); c.chkf("changes-nothing",shot(a)==before,[&]( std::ostream& s ) { s<<jstr(j); }); c.chkf("only-std-runtime_error",x.t.find("[other")==std::string::npos,[&]( std::ostream& s ) { s<<jstr(j)<<" "<<x; }); }
}
// drawing with a style of one's own leaves the default style as it was
template<typename T> static void drawWith( mon::Rng& r, const T& o, img::DrawParams dp, bool other )
{
	try { img::Image<img::SvgImage> im(200,150); if( other ) { o.draw(im,dp); o.draw(im); } else if( r.coin() ) draw(im,o,dp); else o.draw(im,dp); } catch( std::runtime_error& ) {}
}
SECTION(styles,2000)
{
	auto& r=c.rng; PoolOpt o=rndOpt(r); o.n=2; Pool p=build(r.next(),o,true); auto probe=[&]{ Ans a; for( auto& e: p.sg ) svg(a,e); svg(a,p.pt[0]); svg(a,p.cp[0]); svg(a,p.op[0]); svg(a,p.ci[0]); svg(a,p.li[0]); { img::Image<img::SvgImage> im(99,80); im.drawText("t",Point2d_<F>((F)3,(F)9)); std::ostringstream s; s<<im; a.t+=s.str(); } return a; };
	bool custom=r.coin(3); if( custom ) img::DrawParams().setColor(1,2,(uint8_t)r.i(0,9)).setThickness((int)r.i(1,4)).setPointStyle((img::PtStyle)r.i(0,4)).setDefault(); auto before=probe(); std::string h; int K=(int)r.i(1,8);
	for( int k=0;k<K;k++ ) { img::DrawParams dp; unsigned f=(unsigned)r.i(0,1023); if( f&1 ) dp.setColor((uint8_t)r.i(0,255),(uint8_t)r.i(0,255),(uint8_t)r.i(0,255)); if( f&2 ) dp.showPoints(); if( f&4 ) dp.setThickness((int)r.i(1,9)); if( f&8 ) dp.setPointSize((uint8_t)(1+2*r.i(0,4))); if( f&16 ) dp.setPointStyle((img::PtStyle)r.i(0,4)); if( f&32 ) dp.showIndex(); if( f&64 ) dp.showAngles(); if( f&128 ) dp.setFontSize((int)r.i(9,40)); if( f&256 ) dp.setAttrString("opacity=\"0.5\""); if( f&512 ) dp.selectPoint();
		int w=(int)r.i(0,9); h+=std::to_string(w)+"/"+std::to_string(f)+" "; bool ot=r.coin(4); switch( w ) { case 0: drawWith(r,p.pt[0],dp,ot); break; case 1: drawWith(r,p.li[0],dp,ot); break; case 2: drawWith(r,p.sg[0],dp,ot); break; case 3: drawWith(r,p.os[0],dp,ot); break; case 4: drawWith(r,p.fr[0],dp,ot); break; case 5: drawWith(r,p.ci[0],dp,ot); break; case 6: drawWith(r,p.el[0],dp,ot); break; case 7: drawWith(r,p.cp[0],dp,ot); break; case 8: drawWith(r,p.op[0],dp,ot); break; default: { img::Image<img::SvgImage> im(99,80); draw(im,p.pt,dp); draw(im,p.sg,dp); im.drawText("some text",p.pt[0],dp); } }
		auto now=probe(); if( !c.chkf("default-style-kept",now==before,[&]( std::ostream& s ) { s<<"after "<<h<<" "<<now<<" was "<<before; }) ) break; }
	img::DrawParams::resetDefault(); c.put(h);
}
// polylines as built by the user (a comparison is documented to put their points in a normal order): everything else stays
static std::vector<std::pair<LD,LD>> sortedPts( const Poly& q ) { std::vector<std::pair<LD,LD>> v; for( auto& p: q ) v.push_back({p.x,p.y}); std::sort(v.begin(),v.end()); return v; }
template<typename PL> void rawPoly( mon::Case& c, const std::vector<Point2d_<F>>& w, const Pool& p )
{
	auto& r=c.rng; PL pl; pl.set(w); const PL& k=pl; auto asked=[&]( const PL& q ) { Ans a; auto T=[&]( auto f ) { try { f(); } catch( std::runtime_error& ) { a.t+="!"; } }; T([&]{ fd(a,q.size()); }); T([&]{ fd(a,q.nbSegs()); }); T([&]{ fd(a,q.isSimple()); }); T([&]{ fd(a,q.isConvex()); }); T([&]{ auto t=q.getBB(); fd(a,t); }); T([&]{ fd(a,q.getLmPoint().getX()); }); T([&]{ fd(a,q.getTmPoint().getY()); }); T([&]{ for( auto& t: p.pt ) if( ref::dPoly(rd(t),rdv(q.getPts()))>1e-6L ) fd(a,t.isInside(q)); }); return a; };
	auto num=[&]( const PL& q ) { std::vector<LD> v; auto T=[&]( auto f ) { try { v.push_back((LD)f()); } catch( std::runtime_error& ) { v.push_back(-1e9L); } }; T([&]{ return q.length(); }); T([&]{ return q.area(); }); T([&]{ return q.centroid().getX(); }); T([&]{ return q.centroid().getY(); }); T([&]{ return q.convexHull().area(); }); return v; };
	PL fresh; fresh.set(w); auto a0=asked(fresh); auto n0=num(fresh); auto s0=sortedPts(rdv(std::as_const(fresh).getPts())); int K=(int)r.i(2,10); std::string h;
	for( int i=0;i<K;i++ ) { int op=(int)r.i(0,9); h+=std::to_string(op)+" "; try { switch( op ) { case 0: { PL o(k); (void)(o==k); break; } case 1: (void)(k==k); break; case 2: { auto v=w; std::rotate(v.begin(),v.begin()+1,v.end()); PL o; o.set(v); (void)(k==o); break; } case 3: (void)k.area(); break; case 4: (void)k.centroid(); break; case 5: (void)k.isSimple(); break; case 6: (void)k.length(); break; case 7: { Ans t; svg(t,k); break; } case 8: (void)(p.H[0]*k); break; default: (void)k.convexHull(); } } catch( std::runtime_error& ) {}
		if( r.coin(2) ) { auto q=asked(k); if( !c.chkf("polyline-answers-kept",q==a0,[&]( std::ostream& s ) { s<<k<<" "<<q<<" vs "<<a0<<" after "<<h; }) ) return; } }
	auto q=asked(k); c.chkf("polyline-answers-kept-at-the-end",q==a0,[&]( std::ostream& s ) { s<<k<<" "<<q<<" vs "<<a0<<" after "<<h; }); c.chk("polyline-points-kept",sortedPts(rdv(k.getPts()))==s0); auto n1=num(k); for( size_t i=0;i<n0.size();i++ ) c.near("polyline-values-kept",n1[i],n0[i],1e-9L*(1+std::fabs(n0[i]))*(sizeof(F)==4?1e7L:1)); c.put(h);
	if( h.find_first_of("012")==std::string::npos ) { bool same=true; auto g=rdv(k.getPts()), g0=rdv(w); for( size_t i=0;i<g.size()&&i<g0.size();i++ ) same=same&&g[i].x==g0[i].x&&g[i].y==g0[i].y; c.chkf("order-kept-without-comparison",same&&g.size()==g0.size(),[&]( std::ostream& s ) { s<<k<<" after "<<h; }); }
}
SECTION(polylines,4000)
{
	auto& r=c.rng; PoolOpt o; o.n=1; mon::Rng r2(r.next()); auto p=makePool<F>(r2,o); auto q=r.coin(2)?gen::simplePoly(r,gen::num(r,3,9,40,0),20):gen::starPoly(r,gen::num(r,3,9,40,0),P{1,2},3,15); std::vector<Point2d_<F>> w; for( auto& t: q ) w.push_back( Point2d_<F>((F)t.x,(F)t.y) ); if( r.coin(3) ) std::reverse(w.begin(),w.end()); std::rotate(w.begin(),w.begin()+r.i(0,(int)w.size()-1),w.end()); inV(c,"pts",rdv(w));
	if( r.coin(2) ) rawPoly<CPolyline_<F>>(c,w,p); else rawPoly<OPolyline_<F>>(c,w,p);
}
// copies: independent of their source, equal to it
template<typename T> void mutate( mon::Rng& r, T& o, const Pool& p, std::string& h )
{
	int k=(int)r.i(0,5); h+=std::to_string(k)+" "; auto& any=p.of<T>()[r.next()%p.of<T>().size()];
	auto mv=[&]( auto f ) { try { f(); } catch( std::runtime_error& ) { h+="! "; } };
	if( k==0 ) { o=any; return; }
	if constexpr( std::is_same<T,Homogr_<F>>::value ) { mv([&]{ switch( k ) { case 1: o.setTranslation((F)3,(F)4); break; case 2: o.addRotation((F)0.3); break; case 3: o.inverse(); break; case 4: o.set(0,2,(F)17); break; default: o.transpose(); } }); }
	else if constexpr( std::is_same<T,Line2d_<F>>::value ) { mv([&]{ auto& A=p.pt[0]; auto& B=p.pt[1+k%2]; o=Line2d_<F>(A,B); }); }
	else mv([&]{ switch( k ) { case 1: o.translate((F)2,(F)-3); break; case 2: o.moveTo(p.pt[0]); break;
		case 3: if constexpr( isPl<T>::value ) o.rotate(Rotate::CCW); else if constexpr( std::is_same<T,Circle_<F>>::value ) o.set(p.pt); else if constexpr( std::is_same<T,FRect_<F>>::value ) o.set(p.pt[0],p.pt[1]); else if constexpr( std::is_same<T,Segment_<F>>::value||std::is_same<T,OSegment_<F>>::value ) o.set(p.pt[0],p.pt[1]); else o.translate((F)1,(F)1); break;
		case 4: if constexpr( std::is_same<T,CPolyline_<F>>::value||std::is_same<T,OPolyline_<F>>::value ) { o.set(p.pt); } else if constexpr( std::is_same<T,Circle_<F>>::value ) { o.radius()=(F)7; o.center().translate((F)1,(F)0); } else if constexpr( std::is_same<T,Point2d_<F>>::value ) o.set((F)5,(F)6); else o.translate((F)0,(F)1); break;
		default: if constexpr( isPl<T>::value ) { o.minimize(); o.translate((F)0.5,(F)0.25); } else { T q(any); std::swap(q,o); } } });
}
template<typename T> void copies( mon::Case& c, const Pool& p, const char* name )
{
	auto& r=c.rng; const auto& t=tab(); auto& v=p.of<T>(); if( v.empty() ) { c.skip("none"); return; } c.cls(name); std::string pre=std::string(name);
	std::vector<size_t> mine; for( size_t k=0;k<t.size();k++ ) if( t[k].name.compare(0,pre.size(),pre)==0&&(t[k].name[pre.size()]==' '||t[k].name[pre.size()]=='.')&&t[k].name.find("pool")==std::string::npos ) mine.push_back(k); if( !c.chk("has-operations",!mine.empty()) ) return;
	std::vector<Job> q; for( int k=0;k<12;k++ ) q.push_back( {mine[r.next()%mine.size()],0,(size_t)r.i(0,5)} );
	auto put=[&]( const T& o ) { Pool z(p); auto& zz=const_cast<std::vector<T>&>(z.of<T>()); zz.assign(1,o); return z; }; (void)put;
	// the questions are asked to an object standing alone in its list (the rest of the pool being the same)
	auto ansOf=[&]( const T& o ) { std::vector<Ans> a; Pool z(p); const_cast<std::vector<T>&>(z.of<T>())=std::vector<T>{o}; for( auto& j: q ) a.push_back( ask(t[j.op],z,0,j.j) ); return a; };
	auto inPlace=[&]( std::vector<T>& w, size_t i ) { std::vector<Ans> a; Pool z(p); auto& zz=const_cast<std::vector<T>&>(z.of<T>()); zz.clear(); zz.swap(w); for( auto& j: q ) a.push_back( ask(t[j.op],z,i,j.j) ); zz.swap(w); return a; }; (void)inPlace;
	auto cmp=[&]( const char* k, const std::vector<Ans>& x, const std::vector<Ans>& y, const std::string& h ) { for( size_t i=0;i<x.size();i++ ) if( !c.chkf(k,x[i]==y[i],[&]( std::ostream& s ) { s<<jstr(q[i])<<" "<<x[i]<<" vs "<<y[i]<<" history "<<h; }) ) return false; return true; };
	T src(v[0]); auto a0=ansOf(src); std::string h;
	T cc(src), ca(v[v.size()>1]); ca=src; if( !cmp("copy-equals-source",ansOf(cc),a0,"ctor") || !cmp("assigned-copy-equals-source",ansOf(ca),a0,"=") ) return;
	ca=*&ca; if( !cmp("self-assignment-keeps",ansOf(ca),a0,"self") ) return;
	// the copy changes, the source does not
	int K=(int)r.i(1,4); for( int k=0;k<K;k++ ) mutate(r,cc,p,h); if( !cmp("source-untouched-by-its-copy",ansOf(src),a0,h) ) return; if( !cmp("second-copy-untouched",ansOf(ca),a0,h) ) return;
	// the source changes, its copies do not
	T keep(src); auto a1=ansOf(keep); h+="/ "; for( int k=0;k<K;k++ ) mutate(r,src,p,h); if( !cmp("copy-untouched-by-its-source",ansOf(keep),a0,h) ) return; if( !cmp("copy-untouched-by-its-source",ansOf(ca),a1,h) ) return;
	// moving from, swapping, growing a vector
	{ T m(std::move(keep)); if( !cmp("moved-object-keeps",ansOf(m),a0,"move") ) return; T n(v[v.size()>1]); std::swap(m,n); if( !cmp("swapped-object-keeps",ansOf(n),a0,"swap") ) return; keep=n; std::vector<T> g; g.push_back(n); for( int k=0;k<9;k++ ) g.push_back( v[k%v.size()] ); if( !cmp("object-in-a-growing-vector-keeps",ansOf(g[0]),a0,"vector") ) return; std::rotate(g.begin(),g.begin()+1,g.end()); if( !cmp("object-in-a-rotated-vector-keeps",ansOf(g.back()),a0,"rotate") ) return; }
	// a mutated object answers like a fresh one holding the same values: assigned over, it forgets its past
	src=keep; if( !cmp("assigned-over-equals-its-source",ansOf(src),a0,h+"=") ) return; cc=ca; if( !cmp("assigned-over-equals-its-source",ansOf(cc),a0,h+"=") ) return; c.put(h);
}
SECTION(copies,2400)
{
	auto& r=c.rng; PoolOpt o=rndOpt(r); o.n=2; Pool p=build(r.next(),o,true); switch( c.idx%10 ) { case 0: copies<Point2d_<F>>(c,p,"Point2d"); break; case 1: copies<Line2d_<F>>(c,p,"Line2d"); break; case 2: copies<Segment_<F>>(c,p,"Segment"); break; case 3: copies<OSegment_<F>>(c,p,"OSegment"); break; case 4: copies<FRect_<F>>(c,p,"FRect"); break; case 5: copies<Circle_<F>>(c,p,"Circle"); break; case 6: copies<Ellipse_<F>>(c,p,"Ellipse"); break; case 7: copies<CPolyline_<F>>(c,p,"CPolyline"); break; case 8: copies<OPolyline_<F>>(c,p,"OPolyline"); break; default: copies<Homogr_<F>>(c,p,"Homogr"); }
}
// ---- thresholds ----
struct Thr { NT d,o,a,w,t; Thr():d(thr::nullDistance()),o(thr::nullOrthogDistance()),a(thr::nullAngleValue()),w(thr::nullDenom()),t(thr::nullDeter()) {} void back() const { thr::nullDistance()=d; thr::nullOrthogDistance()=o; thr::nullAngleValue()=a; thr::nullDenom()=w; thr::nullDeter()=t; } ~Thr() { back(); } };
static bool thrown( const std::function<void()>& f ) { try { f(); return false; } catch( std::runtime_error& ) { return true; } }
// each kind of decision follows its own threshold, whatever the values of the others
SECTION(thresholds,6000)
{
	auto& r=c.rng; if( sizeof(F)<8 ) { c.skip("double only"); return; } Thr keep; PoolOpt o; o.n=2; Pool p=build(r.next(),o,true); std::vector<Job> q; for( int k=0;k<6;k++ ) q.push_back( {(size_t)(r.next()%tab().size()),(size_t)r.i(0,5),(size_t)r.i(0,5)} ); std::vector<Ans> a0; for( auto& j: q ) a0.push_back( ask(tab()[j.op],p,j.i,j.j) );
	auto lg=[&]( double lo, double hi ) { return std::exp( r.d(std::log(lo),std::log(hi)) ); }; auto side=[&]() { return r.coin(2)? r.d(0.2,0.9) : r.d(1.1,5); };
	NT D=keep.d,O=keep.o,A_=keep.a,W_=keep.w,T_=keep.t; int which=(int)r.i(0,5); if( which==0||which==5 ) thr::nullDistance()=D=(NT)lg(1e-7,0.05); if( which==1||which==5 ) thr::nullOrthogDistance()=O=(NT)lg(1e-7,0.05); if( which==2||which==5 ) thr::nullAngleValue()=A_=(NT)lg(1e-5,0.3); if( which==3||which==5 ) thr::nullDenom()=W_=(NT)lg(1e-9,1e-3); if( which==4||which==5 ) thr::nullDeter()=T_=(NT)lg(1e-12,1e-2);
	c.in("D",(double)D,"O",(double)O,"A",(double)A_,"W",(double)W_,"T",(double)T_); P b{r.d(-9,9),r.d(-9,9)}; LD dir=r.d(-3,3); P u{cosl(dir),sinl(dir)}; bool realD=D>1e-9, realO=O>1e-9;
	if( realD ) { LD k=side(), e=k*D; P q2=b+e*u; Point2d_<F> x((F)b.x,(F)b.y), y((F)q2.x,(F)q2.y); c.chkf("points-equal-by-nullDistance",(x==y)==(k<1),[&]( std::ostream& s ) { s<<"k="<<(double)k; }); c.chkf("points-differ-by-nullDistance",(x!=y)==(k>1),[&]( std::ostream& s ) { s<<"k="<<(double)k; }); c.chkf("line-from-close-points-by-nullDistance",thrown([&]{ Line2d_<F> l(x,y); })==(k<1),[&]( std::ostream& s ) { s<<"k="<<(double)k; }); c.chkf("circle-radius-by-nullDistance",thrown([&]{ Circle_<F> l(x,(F)e); })==(k<1),[&]( std::ostream& s ) { s<<"k="<<(double)k; }); c.chkf("segment-equal-by-nullDistance",(Segment_<F>(x,Point2d_<F>((F)50,(F)60))==Segment_<F>(y,Point2d_<F>((F)50,(F)60)))==(k<1),[&]( std::ostream& s ) { s<<"k="<<(double)k; }); }
	else { Point2d_<F> x((F)b.x,(F)b.y), y((F)(b.x+1e-6L*u.x),(F)(b.y+1e-6L*u.y)); c.chk("distinct-points-with-default-nullDistance",x!=y); c.chk("line-with-default-nullDistance",!thrown([&]{ Line2d_<F> l(x,y); })); }
	{ LD k=realO?side():3, e=realO?k*O:1e-3L; bool hz=r.coin(2); P q2=hz?b+P{7,e}:b+P{e,7}; c.chkf("flat-rectangle-by-nullOrthogDistance",thrown([&]{ FRect_<F> f(Point2d_<F>((F)b.x,(F)b.y),Point2d_<F>((F)q2.x,(F)q2.y)); })==(k<1),[&]( std::ostream& s ) { s<<"k="<<(double)k; }); }
	{ LD k=side(), e=k*A_; P v{cosl(dir+e),sinl(dir+e)}; P q2{r.d(-9,9),r.d(-9,9)}; Line2d_<F> l( Point2d_<F>((F)b.x,(F)b.y), Point2d_<F>((F)(b.x+8*u.x),(F)(b.y+8*u.y)) ), m( Point2d_<F>((F)q2.x,(F)q2.y), Point2d_<F>((F)(q2.x+8*v.x),(F)(q2.y+8*v.y)) );
		c.chkf("parallel-by-nullAngleValue",l.isParallelTo(m)==(k<1)&&m.isParallelTo(l)==(k<1),[&]( std::ostream& s ) { s<<"k="<<(double)k; }); c.chkf("meet-by-nullAngleValue",thrown([&]{ auto t=l*m; (void)t; })==(k<1),[&]( std::ostream& s ) { s<<"k="<<(double)k; }); c.chkf("intersects-by-nullAngleValue",l.intersects(m)()==(k>1),[&]( std::ostream& s ) { s<<"k="<<(double)k; });
		Segment_<F> s1( Point2d_<F>((F)b.x,(F)b.y), Point2d_<F>((F)(b.x+8*u.x),(F)(b.y+8*u.y)) ); c.chk("segment-parallel-by-nullAngleValue",s1.isParallelTo(m)==(k<1)); }
	{ LD k=side(), e=k*T_; LD s=1; Homogr_<F> h; h.set(0,0,(F)e); h.set(1,1,(F)s); c.chkf("inverse-by-nullDeter",thrown([&]{ h.inverse(); })==(k<1),[&]( std::ostream& q ) { q<<"k="<<(double)k; }); }
	if( which==3||which==5 ) { LD k=side(), w=k*W_; Homogr_<F> h; h.set(2,0,(F)1); P q2{w-1,3}; auto t=h*Point2d_<F>((F)q2.x,(F)q2.y); /* third value = w, up to rounding */ if( std::fabs((LD)(F)q2.x+1-w)<0.02L*w ) { c.chkf("point-at-infinity-by-nullDenom",t.isInf()==(k<1),[&]( std::ostream& s ) { s<<"k="<<(double)k<<" w="<<(double)t.get()[2]; }); } }
	else { c.chk("ordinary-point-with-default-nullDenom",!(Point2d_<F>((F)b.x,(F)b.y)).isInf()); }
	keep.back(); for( size_t k=0;k<q.size();k++ ) { auto x=ask(tab()[q[k].op],p,q[k].i,q[k].j); c.chkf("restored-thresholds-restore-the-answers",x==a0[k],[&]( std::ostream& s ) { s<<jstr(q[k])<<" "<<a0[k]<<" then "<<x; }); }
	{ std::ostringstream s; thr::printThresholds(s); std::string w=s.str(); c.chk("printThresholds-names-all",w.find("nullDistance")!=std::string::npos&&w.find("nullOrthogDistance")!=std::string::npos&&w.find("nullAngleValue")!=std::string::npos&&w.find("nullDenom")!=std::string::npos&&w.find("nullDeter")!=std::string::npos); }
}
#ifdef C24_TWO_UNITS
void tuB_set( int k, double v ); double tuB_get( int k ); bool tuB_same( const Point2d&, const Point2d& ); bool tuB_parallel( const Line2d&, const Line2d& ); bool tuB_flat( const Point2d&, const Point2d& ); bool tuB_invertible( const Homogr& ); void tuB_style( int ); std::string tuB_draw( const Segment& );
// a program made of several source files has one set of thresholds and one default style
SECTION(units,1500)
{
	auto& r=c.rng; Thr keep; NT* mine[]={ &thr::nullDistance(), &thr::nullOrthogDistance(), &thr::nullAngleValue(), &thr::nullDenom(), &thr::nullDeter() }; static const double lo[]={1e-7,1e-7,1e-5,1e-9,1e-12}, hi[]={0.05,0.05,0.3,1e-3,1e-2}; NT v[5]; for( int k=0;k<5;k++ ) v[k]=*mine[k];
	for( int n=0;n<4;n++ ) { int k=(int)r.i(0,4); v[k]=(NT)std::exp( r.d(std::log(lo[k]),std::log(hi[k])) ); if( r.coin(2) ) tuB_set(k,(double)v[k]); else *mine[k]=v[k]; c.put(std::to_string(k)+" "); for( int m=0;m<5;m++ ) { c.chkf("same-threshold-seen-everywhere",tuB_get(m)==(double)*mine[m]&&*mine[m]==v[m],[&]( std::ostream& s ) { s<<m<<" set to "<<(double)v[m]<<" here "<<(double)*mine[m]<<" other unit "<<tuB_get(m); }); }
		LD f=r.coin(2)?0.5L:2.0L; Point2d a(1,2); { Point2d b((NT)(1+f*v[0]),2); if( v[0]>1e-9 ) { bool here=a==b; c.chk("equality-same-in-both-units",here==(f<1)&&tuB_same(a,b)==(f<1)); } }
		{ Point2d b((NT)(1+f*v[1]),9); if( v[1]>1e-9 ) c.chk("flatness-same-in-both-units",thrown([&]{ FRect q(a,b); })==(f<1)&&tuB_flat(a,b)==(f<1)); } { LD e=f*v[2]; Line2d l(Point2d(0,0),Point2d(8,0)), m(Point2d(0,1),Point2d((NT)(8*cosl(e)),(NT)(1+8*sinl(e)))); c.chk("parallelism-same-in-both-units",l.isParallelTo(m)==(f<1)&&tuB_parallel(l,m)==(f<1)); }
		{ Homogr h; h.set(0,0,(NT)(f*v[4])); bool inv=!thrown([&]{ Homogr k2(h); k2.inverse(); }); c.chk("invertibility-same-in-both-units",inv==(f>1)&&tuB_invertible(h)==(f>1)); } }
	int th=(int)r.i(1,9); Segment s(1,2,30,40); auto own=[&]{ img::Image<img::SvgImage> im(50,50); s.draw(im); std::ostringstream o; o<<im; return o.str(); }; tuB_style(th); c.chk("default-style-same-in-both-units",own()==tuB_draw(s)&&own().find("stroke-width=\""+std::to_string(th)+"\"")!=std::string::npos); img::DrawParams::resetDefault(); c.chk("default-style-reset-in-both-units",own()==tuB_draw(s));
}
#endif
MON_MAIN
