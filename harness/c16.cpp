#include "h2.hpp"
#include <list>
#include <array>
using namespace gen;
static Poly cloud( mon::Case& c, int lo )
{
	Poly v; int n=(int)c.rng.i(lo,c.rng.coin(60)?300:c.rng.coin(6)?60:8), R=(int)c.rng.i(0,9); int k=(int)c.rng.i(0,4);
	for( int i=0;i<n;i++ ) switch( k ) { case 0: v.push_back(ipt(c.rng,R)); break; case 1: v.push_back({(LD)(float)c.rng.d(-50,50),(LD)(float)c.rng.d(-50,50)}); break; case 2: v.push_back({(LD)c.rng.i(-2,2),(LD)(float)c.rng.d(-9,9)}); break; case 3: v.push_back({(LD)(float)c.rng.d(-9,9),(LD)c.rng.i(-2,2)}); break; default: { LD a=c.rng.i(0,3); P q{5,0}; for( int j=0;j<a;j++ ) q={-q.y,q.x}; if( c.rng.coin(3) ) q={3*(c.rng.coin()?1:-1),4*(c.rng.coin()?1:-1)}; v.push_back(q+P{1,1}); } }
	return v;
}
// tie-break: the most to the left for top and bottom, the lowest for left and right; the first one if identical
static size_t ext( const Poly& v, CardDir d )
{
	size_t b=0; auto lt=[&]( P p, P q ) { switch( d ) { case CardDir::Top: return p.y!=q.y? p.y>q.y : p.x<q.x; case CardDir::Bottom: return p.y!=q.y? p.y<q.y : p.x<q.x; case CardDir::Left: return p.x!=q.x? p.x<q.x : p.y<q.y; default: return p.x!=q.x? p.x>q.x : p.y<q.y; } };
	for( size_t i=1;i<v.size();i++ ) if( lt(v[i],v[b]) ) b=i; return b;
}
template<typename R> void one( mon::Case& c, const std::string& k, const R& r, const Poly& v, size_t e ) { c.chkf(k,(size_t)r.second==e&&rd(r.first)==v[e],[&](std::ostream&o){ o<<"got index "<<r.second<<" "<<r.first<<" expected "<<e<<" "<<str(v[e]); }); }
template<typename C> void allDirs( mon::Case& c, const std::string& k, const C& w, const Poly& v )
{
	one(c,k+"top",getTmPoint(w),v,ext(v,CardDir::Top)); one(c,k+"bottom",getBmPoint(w),v,ext(v,CardDir::Bottom)); one(c,k+"left",getLmPoint(w),v,ext(v,CardDir::Left)); one(c,k+"right",getRmPoint(w),v,ext(v,CardDir::Right));
	for( auto d: {CardDir::Top,CardDir::Bottom,CardDir::Left,CardDir::Right} ) one(c,k+"dir",getExtremePoint(d,w),v,ext(v,d));
}
template<typename F> void extremes( mon::Case& c )
{
	Poly v=cloud(c,1); inV(c,"v",v); std::vector<Point2d_<F>> w; for( auto&p:v ) w.push_back(Point2d_<F>((F)p.x,(F)p.y)); allDirs(c,"vector-",w,v); std::list<Point2d_<F>> l(w.begin(),w.end()); allDirs(c,"list-",l,v); if( v.size()>=5 ) { std::array<Point2d_<F>,5> a; for( int i=0;i<5;i++ ) a[i]=w[i]; allDirs(c,"array-",a,Poly(v.begin(),v.begin()+5)); }
	Poly u; for( auto&p:v ) if( u.empty()||ref::dist(u.back(),p)>1e-6L ) u.push_back(p); while( u.size()>1&&ref::dist(u.back(),u[0])<1e-6L ) u.pop_back(); if( u.size()<2 ) return; c.cls("polyline"); std::vector<Point2d_<F>> x; for( auto&p:u ) x.push_back(Point2d_<F>((F)p.x,(F)p.y));
	auto po=[&]( const auto& q ) { auto e=[&]( const char* k, auto g, CardDir d ) { P r=u[ext(u,d)]; c.chkf(k,rd(g)==r,[&](std::ostream&o){o<<"got "<<g<<" expected "<<str(r);}); }; e("poly-top",q.getTmPoint(),CardDir::Top); e("poly-bottom",q.getBmPoint(),CardDir::Bottom); e("poly-left",q.getLmPoint(),CardDir::Left); e("poly-right",q.getRmPoint(),CardDir::Right); e("poly-free-top",getTmPoint(q),CardDir::Top); e("poly-free-bottom",getBmPoint(q),CardDir::Bottom); e("poly-free-left",getLmPoint(q),CardDir::Left); e("poly-free-right",getRmPoint(q),CardDir::Right); for( auto d: {CardDir::Top,CardDir::Bottom,CardDir::Left,CardDir::Right} ) { e("poly-dir",q.getExtremePoint(d),d); e("poly-free-dir",getExtremePoint(d,q),d); } };
	CPolyline_<F> cp(x); OPolyline_<F> op(x); po(cp); po(op); if( c.rng.coin() ) { (void)(cp==cp); po(cp); LD dx=c.rng.i(-9,9),dy=c.rng.i(-9,9); bool dy_ok=true; for( auto&p:u ) { P q{(LD)(F)(p.x+dx),(LD)(F)(p.y+dy)}; dy_ok=dy_ok&&q.x==p.x+dx&&q.y==p.y+dy; p=p+P{dx,dy}; } if( dy_ok ) { op.translate((F)dx,(F)dy); po(op); } }
}
SECTION(extreme,14000) { switch( c.rng.i(0,3) ) { case 0: extremes<float>(c); break; case 1: extremes<long double>(c); break; default: extremes<NT>(c); } }
template<typename F,typename G> void nearest( mon::Case& c )
{
	Poly v=cloud(c,2); P q=c.rng.coin(3)?c.rng.pick(v):c.rng.coin()?ipt(c.rng,9):P{(LD)(float)c.rng.d(-60,60),(LD)(float)c.rng.d(-60,60)}; if( c.rng.coin(4) ) v.insert(v.begin(),(size_t)c.rng.i(1,3),q); inV(c,"v",v); inP(c,"q",q);
	std::vector<Point2d_<F>> w; for( auto&p:v ) w.push_back(Point2d_<F>((F)p.x,(F)p.y)); Point2d_<G> Q((G)q.x,(G)q.y); LD mn=1e300L,mx=-1; int eq=0; for( auto&p:v ) { LD d=ref::dist(p,q); if( d==0 ) { eq++; continue; } mn=std::min(mn,d); mx=std::max(mx,d); } if( mn<1e-6L ) { c.skip("nearly identical"); return; } if( eq ) c.cls("query is in"); if( eq>1 ) c.cls("query is in, several times");
	auto run=[&]( const std::string& k, const auto& w )
	{
		if( mx<0 ) { c.throws(k+"none-different-near",[&]{ (void)findNearestPoint(Q,w); }); c.throws(k+"none-different-far",[&]{ (void)findFarthestPoint(Q,w); }); c.throws(k+"none-different-both",[&]{ (void)findNearestFarthestPoint(Q,w); }); return; }
		size_t a=findNearestPoint(Q,w), b=findFarthestPoint(Q,w); auto ab=findNearestFarthestPoint(Q,w); auto bad=[&]( size_t i, LD m ) { return i>=v.size()||v[i]==q||std::fabs(ref::dist(v[i],q)-m)>1e-12L*(1+m); };
		auto sh=[&](std::ostream&o){o<<a<<" "<<b<<" / "<<ab.first<<" "<<ab.second<<" min "<<mn<<" max "<<mx;}; c.chkf(k+"nearest",!bad(a,mn),sh); c.chkf(k+"farthest",!bad(b,mx),sh); c.chkf(k+"both-nearest",!bad(ab.first,mn),sh); c.chkf(k+"both-farthest",!bad(ab.second,mx),sh);
	};
	run("vector-",w); std::list<Point2d_<F>> l(w.begin(),w.end()); run("list-",l); if( v.size()==4 ) { std::array<Point2d_<F>,4> a{w[0],w[1],w[2],w[3]}; run("array-",a); }
}
SECTION(near_far,16000) { switch( c.rng.i(0,4) ) { case 0: nearest<float,NT>(c); break; case 1: nearest<NT,float>(c); break; case 2: nearest<long double,long double>(c); break; default: nearest<NT,NT>(c); } }
SECTION(refused,1)
{
	c.in("fixed",1); std::vector<Point2d> e; std::vector<Point2d> o{Point2d(1,2)}; std::list<Point2d> le; Point2d q(3,4); c.throws("top",[&]{ (void)getTmPoint(e); }); c.throws("bottom",[&]{ (void)getBmPoint(e); }); c.throws("left",[&]{ (void)getLmPoint(e); }); c.throws("right",[&]{ (void)getRmPoint(le); }); for( auto d: {CardDir::Top,CardDir::Bottom,CardDir::Left,CardDir::Right} ) { c.throws("dir",[&]{ (void)getExtremePoint(d,e); }); c.throws("dir-poly",[&]{ (void)CPolyline().getExtremePoint(d); }); }
	c.throws("poly",[&]{ (void)OPolyline().getTmPoint(); }); c.throws("poly2",[&]{ (void)getLmPoint(CPolyline()); }); for( auto& w: {e,o} ) { c.throws("near",[&]{ (void)findNearestPoint(q,w); }); c.throws("far",[&]{ (void)findFarthestPoint(q,w); }); c.throws("both",[&]{ (void)findNearestFarthestPoint(q,w); }); }
}
MON_MAIN
