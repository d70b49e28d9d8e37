// C26: threads working on disjoint objects, under ThreadSanitizer, against the same work done sequentially
#ifdef C26_SVG
#define HOMOG2D_USE_SVG_IMPORT
#endif
#define HOMOG2D_USE_EIGEN
#include "ops.hpp"
#include <atomic>
#include <thread>
using namespace ops;
typedef double F; typedef PoolT<F> Pool;
static const std::vector<OpD<F>>& tab() { static auto t=table<F>(); return t; }
// std::cerr for the duration of the program: swallows everything, holds no state
struct Sink: std::streambuf { int overflow( int ch ) override { return ch==EOF?0:ch; } std::streamsize xsputn( const char*, std::streamsize n ) override { return n; } };
struct UseSink { UseSink() { std::cerr.rdbuf(new Sink); err::printWarnings()=true; } }; static UseSink useSink_;
enum { NK=10 };
static const char* kindName( int k ) { static const char* n[]={"queries","build","polylines","circles and ellipses","homographies","draw","refusals","offset and warnings","import","containers"}; return n[k]; }
static std::string num( double d ) { std::ostringstream o; o<<d; return o.str(); }
// ---- one unit of work of kind k: everything it uses is built from its own seed ----
static Ans work( int k, uint64_t seed )
{
	mon::Rng r(seed); Ans a; PoolOpt o; o.n=2; o.ints=r.coin(3); auto T=[&]( auto f ) { try { f(); } catch( const std::runtime_error& ) { a.t+="!"; } };
	switch( k )
	{
		case 0: { auto p=makePool<F>(r,o); if( r.coin(2) ) normal(p); for( int n=0;n<12;n++ ) { auto& d=tab()[r.next()%tab().size()]; auto x=ask(d,p,(size_t)r.i(0,3),(size_t)r.i(0,3)); a.t+=x.t; a.v.insert(a.v.end(),x.v.begin(),x.v.end()); } break; }
		case 1: { for( int n=0;n<3;n++ ) { o.ints=r.coin(2); auto p=makePool<F>(r,o); fd(a,p.pt); fd(a,p.li); fd(a,p.el); fd(a,p.fr); fd(a,p.H); T([&]{ auto h=p.H[0]; h.inverse(); fd(a,h); fd(a,h*p.H[1]); fd(a,p.H[0]*p.el[0]); fd(a,p.H[0]*p.fr[0]); }); } break; }
		case 2: { auto p=makePool<F>(r,o); for( auto& q: p.cp ) { T([&]{ q.translate((F)1,(F)2); fd(a,q.area()); fd(a,q.centroid()); fd(a,q.isSimple()); fd(a,q.isConvex()); }); for( auto& q2: p.cp ) { fd(a,q==q2); T([&]{ fd(a,q.intersects(q2)); }); } q.minimize(); q.rotate(Rotate::CW); T([&]{ fd(a,q.convexHull()); fd(a,q.length()); }); fd(a,q); } for( auto& q: p.op ) { T([&]{ fd(a,getClosestPoints(q,p.cp[0]).getMinDist()); fd(a,q==p.op[0]); q.minimize(); }); fd(a,q); } break; }
		case 3: { auto p=makePool<F>(r,o); T([&]{ Circle_<F> q; q.set(p.pt); fd(a,q); }); for( auto& x: p.ci ) for( auto& y: p.ci ) { T([&]{ fd(a,x.intersects(y)); }); T([&]{ fd(a,getTanSegs(x,y)); }); } for( auto& e: p.el ) { T([&]{ fd(a,e.getBB()); fd(a,e.getOBB()); fd(a,e.angle()); fd(a,e.length()); fd(a,p.H[0]*e); e.translate((F)1,(F)1); fd(a,e); }); } for( int n=0;n<5;n++ ) T([&]{ auto w=gen::simplePoly(r,(int)r.i(5,30),40); Circle_<F> q; q.set(mkv(w)); fd(a,q); }); break; }
		case 4: { auto p=makePool<F>(r,o); for( auto& h: p.H ) { T([&]{ auto i=h; i.inverse(); fd(a,i); fd(a,h*p.li[0]); fd(a,h*p.li[1]); fd(a,h*p.sg[0]); fd(a,h*p.cp); fd(a,h==i); i.transpose(); i.addRotation((F)0.2).addTranslation((F)1,(F)2).addScale((F)2); fd(a,i); }); } T([&]{ std::vector<Point2d> s{{0,0},{1,0},{1,1},{0,1}}, d; for( auto& q: s ) d.push_back( Point2d((F)((LD)q.getX()*3+r.d(0,.4)),(F)((LD)q.getY()*2+r.d(0,.4))) ); Homogr h; h.buildFrom4Points(s,d); fd(a,h); }); for( int n=0;n<6;n++ ) T([&]{ LD u=r.i(1,9); std::vector<Point2d> s{{(double)-u,0},{1,0},{1,(double)u},{0,1}}, d; for( auto& q: s ) d.push_back( Point2d((F)((LD)q.getX()*3+r.d(0,.4)),(F)((LD)q.getY()*2+r.d(0,.4))) ); Homogr h; h.buildFrom4Points(s,d,0); fd(a,h); }); break; }
		case 5: { auto p=makePool<F>(r,o); img::Image<img::SvgImage> im(200,200); img::DrawParams dp; dp.setThickness((int)r.i(1,9)); dp.setColor((uint8_t)r.i(0,255),2,3); dp.showPoints(r.coin(2)); for( auto& x: p.sg ) x.draw(im,dp); for( auto& x: p.ci ) x.draw(im); for( auto& x: p.cp ) x.draw(im,dp); for( auto& x: p.el ) x.draw(im); for( auto& x: p.li ) x.draw(im,dp); h2d::draw(im,p.pt,dp); for( auto& x: p.fr ) x.draw(im); im.drawText("t"+std::to_string(r.i(0,99)),Point2d_<float>(3,4)); std::ostringstream s; s<<im; a.t+=s.str(); break; }
		case 6: { Point2d z(1,2); for( int n=0;n<4;n++ ) { T([&]{ Line2d l(z,z); fd(a,l); }); T([&]{ Circle_<F> c(z,(F)0); fd(a,c); }); T([&]{ FRect_<F> f(z,z); fd(a,f); }); T([&]{ Homogr h; h.set(0,0,0); h.inverse(); fd(a,h); }); T([&]{ Line2d l(z,Point2d(3,4)), m(Point2d(1,3),Point2d(3,5)); fd(a,l*m); }); T([&]{ CPolyline q; fd(a,q.getPoint(3)); }); } break; }
		case 7: { auto p=makePool<F>(r,o); for( auto& q: p.cp ) { T([&]{ fd(a,q.getOffsetPoly((F)r.d(-2,2))); }); T([&]{ fd(a,q.getOffsetPoly((F)0)); }); } CPolyline q( std::vector<Point2d>{{0,0},{9,0},{0,9},{9,9}} ); T([&]{ fd(a,q.getOffsetPoly((F)1)); }); break; }
		case 8: {
#ifdef C26_SVG
			std::string d="<svg width=\"100\" height=\"100\">"; for( int n=0;n<5;n++ ) switch( r.i(0,5) ) { case 0: d+="<circle cx=\""+num(r.d(0,9))+"\" cy=\""+num(r.d(0,9))+"\" r=\""+num(r.d(1,9))+"\"/>"; break; case 1: d+="<rect x=\"1\" y=\"2\" width=\""+num(r.d(1,9))+"\" height=\"4\"/>"; break; case 2: d+="<path d=\"M "+num(r.d(0,9))+" 1 l 3,4 h 5 v -2 z m 2,2 L 7 8 9 1 Z\"/>"; break; case 3: d+="<polygon points=\"0,0 "+num(r.d(3,9))+",1 4,5\"/>"; break; case 4: d+="<ellipse cx=\"5\" cy=\"6\" rx=\""+num(r.d(5,9))+"\" ry=\"3\" transform=\"rotate(30,5,6)\"/>"; break; default: d+="<path d=\"M0 0 C 1,2 3,4 5,6\"/><text>no</text><line x1=\"1\" y1=\"2\" x2=\""+num(r.d(3,9))+"\" y2=\"4\"/>"; } d+="</svg>";
			tinyxml2::XMLDocument doc; doc.Parse(d.c_str()); svg::Visitor v; doc.Accept(&v); for( auto& e: v.get() ) { std::visit( [&]( const auto& x ) { fd(a,(int)x.type()); fd(a,x); }, e ); }
#else
			auto p=makePool<F>(r,o); for( auto& q: p.fr ) for( auto& q2: p.fr ) { T([&]{ fd(a,q|q2); }); T([&]{ fd(a,q&q2); }); }
#endif
			break; }
		default: { auto w=mkv( gen::simplePoly(r,(int)r.i(6,25),40) ); T([&]{ fd(a,getBB(w)); fd(a,convexHull(w)); fd(a,findNearestFarthestPoint(w[0],w)); fd(a,getLmPoint(w)); Homogr h; h.addRotation((F)0.3).addTranslation((F)1,(F)0); h.applyTo(w); fd(a,w); std::vector<Segment> s; for( size_t i=1;i<w.size();i++ ) s.emplace_back(w[i-1],w[i]); fd(a,getLines(s)); fd(a,getCenters(s)); fd(a,getBB(s)); fd(a,getPtsInside(w,Circle_<F>(w[1],(F)15))); }); }
	}
	return a;
}
struct Item { int k; uint64_t seed; };
static std::atomic<int> running[16];
SECTION(threads,400)
{
	auto& r=c.rng; int NT_=(int)r.i(2,8); std::vector<std::vector<Item>> plan(NT_); bool same=r.coin(3); int kk=(int)r.i(0,NK-1); for( auto& p: plan ) { int n=(int)r.i(4,14); for( int i=0;i<n;i++ ) p.push_back( { same?kk:(int)r.i(0,NK-1), (uint64_t)r.next() } ); } bool jitter=r.coin(2); c.in("threads",NT_,"same kind",(int)same,"seed",plan[0][0].seed);
	std::vector<std::vector<Ans>> got(NT_); std::vector<std::map<std::string,int>> seen(NT_); std::vector<std::string> bad(NT_); std::atomic<int> ready{0}; std::vector<std::thread> th;
	for( int t=0;t<NT_;t++ ) { got[t].resize(plan[t].size()); th.emplace_back( [&,t]() { ready.fetch_add(1,std::memory_order_relaxed); while( ready.load(std::memory_order_relaxed)<NT_ ) std::this_thread::yield(); uint64_t js=plan[t][0].seed; for( size_t i=0;i<plan[t].size();i++ ) { auto& it=plan[t][i]; running[t].store(it.k+1,std::memory_order_relaxed); if( jitter ) { js=js*6364136223846793005ULL+1; for( unsigned n=0;n<((js>>40)&1023);n++ ) std::this_thread::yield(); }
		try { got[t][i]=work(it.k,it.seed); } catch( const std::exception& e ) { bad[t]+=std::string(kindName(it.k))+": "+e.what()+"; "; } catch( ... ) { bad[t]+="non-standard exception; "; }
		for( int u=0;u<NT_;u++ ) if( u!=t ) { int o=running[u].load(std::memory_order_relaxed); if( o ) seen[t][std::string(kindName(std::min(o-1,it.k)))+" | "+kindName(std::max(o-1,it.k))]++; } } running[t].store(0,std::memory_order_relaxed); } ); }
	for( auto& t: th ) t.join(); for( auto& s: seen ) for( auto& e: s ) for( int n=0;n<e.second;n++ ) c.cls("concurrently: "+e.first);
	for( int t=0;t<NT_;t++ ) { c.chk("no-unexpected-exception-in-a-thread",bad[t].empty(),bad[t]); for( size_t i=0;i<plan[t].size();i++ ) { auto& it=plan[t][i]; Ans q=work(it.k,it.seed); c.chkf("same-as-sequential",q==got[t][i],[&]( std::ostream& s ) { s<<kindName(it.k)<<" seed "<<it.seed<<" sequential "<<q<<" in the thread "<<got[t][i]; }); } }
}
// copies handed to threads, read-only sharing of nothing: each thread copies its objects from its own source built before the start
SECTION(handover,200)
{
	auto& r=c.rng; int n=(int)r.i(2,8); std::vector<Pool> p; std::vector<std::vector<size_t>> q(n); for( int t=0;t<n;t++ ) { PoolOpt o; o.n=2; mon::Rng r2(r.next()); p.push_back( makePool<F>(r2,o) ); normal(p[t]); } for( auto& x: q ) for( int i=0;i<20;i++ ) x.push_back( r.next()%tab().size() ); std::vector<Pool> ref(p), cp; for( int t=0;t<n;t++ ) cp.push_back( Pool(p[t]) ); (void)cp; std::vector<std::vector<Ans>> got(n); std::vector<std::thread> th; (void)tab();
	// copies of one object given to several threads are disjoint objects
	std::vector<Pool> same; for( int t=0;t<n;t++ ) same.push_back( Pool(p[0]) ); c.in("threads",n,"first",q[0][0],q[0][1]);
	for( int t=0;t<n;t++ ) th.emplace_back( [&,t]() { for( auto k: q[t] ) got[t].push_back( ask(tab()[k],p[t],1,0) ); for( auto k: q[t] ) got[t].push_back( ask(tab()[k],same[t],0,1) ); } ); for( auto& t: th ) t.join();
	for( int t=0;t<n;t++ ) { size_t i=0; for( auto k: q[t] ) { auto x=ask(tab()[k],ref[t],1,0); c.chkf("same-as-sequential",x==got[t][i],[&]( std::ostream& s ) { s<<tab()[k].name<<" "<<x<<" vs "<<got[t][i]; }); i++; } for( auto k: q[t] ) { auto x=ask(tab()[k],ref[0],0,1); c.chkf("copies-in-threads-same-as-sequential",x==got[t][i],[&]( std::ostream& s ) { s<<tab()[k].name<<" "<<x<<" vs "<<got[t][i]; }); i++; } }
}
MON_MAIN
