// C27: the unit and the origin in which a scene is expressed don't matter
#include "ops.hpp"
using namespace ops;
#ifndef FT
#define FT double
#endif
typedef FT F; typedef PoolT<F> Pool;
static const LD REL= sizeof(F)==4?2e-3L:1e-9L;
static const std::vector<OpD<F>>& tab() { static auto t=table<F>(); return t; }
static bool skipped( const std::string& n, bool moved )
{
	for( auto k: {".draw",".<<","transpose"} ) if( n.find(k)!=std::string::npos ) return true;
	if( moved ) for( auto k: {"Homogr","homography","Line2d.get","Point2d.get","raw","parDist","Line2d.size","crossProduct"} ) if( n.find(k)!=std::string::npos && n!="Point2d.getX" && n!="Point2d.getY" && n!="Line2d.getPoint x" && n!="Line2d.getPoint y" && n!="Point2d.getPtsInside circle" && n!="Point2d.getPtsInside rect" && n!="Point2d.getPtsInside poly" && n.find("getBB")==std::string::npos && n.find("mPoint")==std::string::npos ) return true;
	return false;
}
// the scene q expressed in the frame (u,tx,ty)
static Pool expressed( const Pool& q, const Frame& f )
{
	Pool p; auto X_=[&]( LD x ) { return (F)(x*f.u+f.tx); }; auto Y_=[&]( LD y ) { return (F)(y*f.u+f.ty); }; auto pt=[&]( const Point2d_<F>& a ) { return Point2d_<F>( X_(a.getX()), Y_(a.getY()) ); };
	for( auto& a: q.pt ) p.pt.push_back(pt(a)); for( auto& l: q.li ) { auto g=l.get(); p.li.push_back( Line2d_<F>( g[0], g[1], (F)((LD)g[2]*f.u-(LD)g[0]*f.tx-(LD)g[1]*f.ty) ) ); }
	for( auto& s: q.sg ) { auto e=s.getPts(); p.sg.emplace_back(pt(e.first),pt(e.second)); } for( auto& s: q.os ) { auto e=s.getPts(); p.os.emplace_back(pt(e.first),pt(e.second)); } for( auto& s: q.fr ) { auto e=s.getPts(); p.fr.emplace_back(pt(e.first),pt(e.second)); }
	for( auto& c: q.ci ) p.ci.emplace_back( pt(c.center()), (F)((LD)c.radius()*f.u) ); for( auto& e: q.el ) { auto m=e.getMajMin(); p.el.emplace_back( pt(e.getCenter()), (F)((LD)m.first*f.u), (F)((LD)m.second*f.u), (F)e.angle() ); }
	for( auto& c: q.cp ) { std::vector<Point2d_<F>> w; for( const auto& a: c.getPts() ) w.push_back(pt(a)); p.cp.emplace_back(w); } for( auto& c: q.op ) { std::vector<Point2d_<F>> w; for( const auto& a: c.getPts() ) w.push_back(pt(a)); p.op.emplace_back(w); }
	for( auto& h: q.H ) { Homogr_<F> g; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) g.set(i,j,(F)((LD)h.value(i,j)*(i<2&&j==2?f.u:i==2&&j<2?1/f.u:1))); g.normalize(); p.H.push_back(g); }
	return p;
}
// what b should be, knowing a; nothing found: empty string
static std::string differs( const Ans& a, const Ans& b, const Frame& f, LD S, bool set )
{
	if( a.t!=b.t ) return "outcome "+a.t+" / "+b.t; if( a.v.size()!=b.v.size() ) return "size of the answer"; bool mv=f.tx!=0||f.ty!=0; std::ostringstream o; o<<std::setprecision(17);
	if( mv&&set ) // the order of the points depends on roundings if two of them share an x
	{
		auto pts=[]( const Ans& q ) { Poly w; for( size_t i=0;i+1<q.v.size()&&i+1<q.d.size();i++ ) if( q.d[i]==DX ) w.push_back({q.v[i],q.v[i+1]}); return w; }; Poly p=pts(a), q=pts(b); if( p.size()!=q.size() ) return "number of points"; for( auto& t: p ) { P e{t.x+f.tx,t.y+f.ty}; size_t best=0; for( size_t k=1;k<q.size();k++ ) if( ref::dist(q[k],e)<ref::dist(q[best],e) ) best=k; if( ref::norm(t)>1e3L*S ) continue; if( !(ref::dist(q[best],e)<=1e3L*REL*(ref::norm(e)+S)) ) { o<<str(t)<<" is no longer found"; return o.str(); } q.erase(q.begin()+best); }
		return "";
	}
	for( size_t i=0;i<a.v.size();i++ )
	{
		LD x=a.v[i], y=b.v[i]; int k=i<a.d.size()?a.d[i]:(int)DU; auto ok=[&]( LD e, LD scale ) { if( std::isnan(x)||std::isinf(x) ) return std::isnan(y)||std::isinf(y); if( mv&&std::fabs(x)>1e3L*S ) return true; return std::fabs(y-e)<=(mv?1e3L:1)*REL*(std::fabs(e)+scale); }; bool g=false; LD L=S*f.u;
		switch( k )
		{
			case D0: g=ok(x,1); break; case D1: g=ok(x*f.u,L); break; case D2: g=ok(x*f.u*f.u,L*L); break; case DM: g=ok(x/f.u,1/L); break; case DX: g=ok(x*f.u+f.tx,L); break; case DY: g=ok(x*f.u+f.ty,L); break; case DA: case DB: g=ok(x,1); break;
			case DC: g=ok(x*f.u-a.v[i-2]*f.tx-a.v[i-1]*f.ty,L); break; case DANG: { LD e=std::fmod(std::fabs(y-x),ref::PI); g=std::min(e,ref::PI-e)<(mv?1e-4L:1e-6L)*(sizeof(F)==4?100:1); break; }
			default: g=ok(x,1)||ok(x*f.u,L)||ok(x*f.u*f.u,L*L)||ok(x/f.u,1/L); if( mv ) g=g||ok(x+f.tx,L)||ok(x+f.ty,L);
		}
		if( !g ) { o<<"value "<<i<<" kind "<<k<<": "<<x<<" became "<<y; return o.str(); }
	}
	return "";
}
static void compare( mon::Case& c, const char* key, const Frame& f, const PoolOpt& o )
{
	auto& r=c.rng; auto sd=r.next(); mon::Rng r2(sd); c.in("scene",(long long)sd); Pool q0=makePool<F>(r2,o), q=expressed(q0,Frame()), p=expressed(q0,f); if( r.coin(2) ) { normal(q); normal(p); } LD S=std::max(1.0,o.range); bool mv=f.tx!=0||f.ty!=0; c.in("frame",f.u,f.tx,f.ty,o.range,(int)o.ints);
	int K=60; size_t at=r.next()%tab().size();
	for( int k=0;k<K;k++ )
	{
		const auto& op=tab()[(at+(size_t)k*41)%tab().size()]; if( skipped(op.name,mv) ) continue; size_t i=r.i(0,5), j=r.i(0,5); if( auto e=op.name.find(" intersects "); e!=std::string::npos && op.name.compare(0,e,op.name,e+12,std::string::npos)==0 ) if( q.cp.size()!=q.op.size()||i%q.cp.size()==j%q.cp.size() ) continue; // an object with itself: nothing but contacts
		if( o.ints && op.name.find("intersects")!=std::string::npos && op.name.find("Polyline")!=std::string::npos ) continue; // points found twice, at a vertex: how many of them are kept depends on roundings
		frame()=Frame(); frame().on=true; auto a=ask(op,q,i,j); frame()=f; frame().on=true; auto b=ask(op,p,i,j); frame()=Frame(); std::string d=differs(a,b,f,S,op.name.find("intersects")!=std::string::npos); c.cls( a.t.find("runtime_error")==std::string::npos?"answer":"refusal" );
		if( !c.chkf(std::string(key)+"/"+op.name,d.empty(),[&]( std::ostream& s ) { s<<op.name<<"("<<i<<","<<j<<") "<<d<<" : "<<a<<" became "<<b; }) ) return;
	}
}
SECTION(unit,9000) { auto& r=c.rng; PoolOpt o; o.n=(int)r.i(2,3); o.ints=r.coin(3); o.range=r.coin(4)?4:20; Frame f; int k=0; while( k==0 ) k=(int)r.i(-7,7); f.u=std::ldexp(1.L,k); compare(c,"unit",f,o); }
SECTION(origin,6000) { auto& r=c.rng; PoolOpt o; o.n=(int)r.i(2,3); o.range=20; Frame f; f.tx=r.i(-64,64); f.ty=r.i(-64,64); if( f.tx==0&&f.ty==0 ) f.tx=8; compare(c,"origin",f,o); }
MON_MAIN
