// C25: in-place moves
#include <utility>
#include "h2.hpp"
using namespace gen;
using ref::PI;
template<typename F> LD EPS() { return sizeof(F)==4?1.2e-7L:2.3e-16L; }
struct Map { int kind; P d; bool mirror() const { return kind>=4; } // 0: translation by d; 1 CCW 2 CW 3 Full 4 VMirror 5 HMirror around d
	P operator()( P p ) const { LD x=p.x-d.x,y=p.y-d.y; switch( kind ) { case 0: return p+d; case 1: return d+P{-y,x}; case 2: return d+P{y,-x}; case 3: return d+P{-x,-y}; case 4: return d+P{-x,y}; default: return d+P{x,-y}; } } };
static const Rotate RT[]={Rotate::CCW,Rotate::CCW,Rotate::CW,Rotate::Full,Rotate::VMirror,Rotate::HMirror};
static const char* RN[]={"translate","CCW","CW","Full","VMirror","HMirror"};
static int opposite( int k ) { return k==1?2:k==2?1:k; }
static LD mag( const Poly& v ) { LD m=0; for( auto& p:v ) m=std::max(m,std::max(std::fabs(p.x),std::fabs(p.y))); return m; }
template<typename V> Poly rdPts( const V& v ) { Poly o; for( auto& p: v ) o.push_back(rd(p)); return o; }
// ---- one adapter per type: points, oracle of everything that must follow ----
template<typename F> Poly points( const Point2d_<F>& p ) { return {rd(p)}; }
template<typename S,typename F> Poly points( const base::SegVec<S,F>& s ) { auto q=s.getPts(); return {rd(q.first),rd(q.second)}; }
template<typename F> Poly points( const FRect_<F>& s ) { auto q=s.getPts(); return {rd(q.first),rd(q.second)}; }
template<typename F> Poly points( const Circle_<F>& s ) { return {rd(s.center())}; }
template<typename F> Poly points( const Ellipse_<F>& s ) { return {rd(s.getCenter())}; }
template<typename T,typename F> Poly points( const base::PolylineBase<T,F>& s ) { return rdPts(s.getPts()); }
template<typename O> constexpr bool isPoly() { return std::is_same<O,CPolyline_<typename O::FType>>::value||std::is_same<O,OPolyline_<typename O::FType>>::value; }
template<typename O> constexpr bool isRect() { return std::is_same<O,FRect_<typename O::FType>>::value; }
template<typename O> constexpr bool isEll() { return std::is_same<O,Ellipse_<typename O::FType>>::value; }
template<typename O> constexpr bool isCir() { return std::is_same<O,Circle_<typename O::FType>>::value; }
template<typename O> constexpr bool isPt() { return std::is_same<O,Point2d_<typename O::FType>>::value; }
template<typename O> constexpr bool isSeg() { return std::is_same<O,Segment_<typename O::FType>>::value||std::is_same<O,OSegment_<typename O::FType>>::value; }
// queries made before the moves, so anything stored has a chance to be stale
template<typename O> void warm( mon::Case& c, const O& o )
{
	auto& r=c.rng; int n=(int)r.i(0,4); std::string w; for( int i=0;i<n;i++ ) try { int k=(int)r.i(0,7); w+=std::to_string(k);
		if constexpr( isPoly<O>() ) { switch( k ) { case 0: (void)o.length(); break; case 1: (void)o.area(); break; case 2: (void)o.centroid(); break; case 3: (void)o.isSimple(); break; case 4: (void)o.isConvex(); break; case 5: (void)o.getBB(); break; case 6: { O q(o); (void)(q==o); (void)(o==q); break; } default: (void)o.getSegs(); } }
		else if constexpr( isSeg<O>() ) { switch( k ) { case 0: (void)o.length(); break; case 1: (void)o.getLine(); break; case 2: (void)o.getAngle(o); break; default: (void)o.getCenter(); } }
		else if constexpr( isRect<O>() ) { switch( k ) { case 0: (void)o.length(); break; case 1: (void)o.getSegs(); break; default: (void)o.getCenter(); } }
		else if constexpr( isCir<O>() ) { switch( k ) { case 0: (void)o.length(); break; case 1: (void)o.getBB(); break; default: (void)o.area(); } }
		else if constexpr( isEll<O>() ) { switch( k ) { case 0: (void)o.length(); break; case 1: (void)o.getBB(); break; case 2: (void)o.angle(); break; case 3: (void)o.getOBB(); break; case 4: (void)o.getAxisLines(); break; default: (void)o.getMajMin(); } }
	} catch( std::runtime_error& ) {} c.put("warm="+w+"; ");
}
template<typename O> O fresh( const O& o, const Poly& q )
{
	using F=typename O::FType; auto M=[]( P p ) { return Point2d_<F>((F)p.x,(F)p.y); };
	if constexpr( isPoly<O>() ) { std::vector<Point2d_<F>> v; for( auto& p:q ) v.push_back(M(p)); return O(v); } else if constexpr( isSeg<O>()||isRect<O>() ) return O(M(q[0]),M(q[1])); else if constexpr( isCir<O>() ) return O(M(q[0]),o.radius()); else if constexpr( isEll<O>() ) { auto m=o.getMajMin(); return O(M(q[0]),m.first,m.second,o.angle()); } else return O(M(q[0]));
}
// everything the moved object answers, against an object built at the new place
template<typename O> void compare( mon::Case& c, const char* how, const O& o, const O& src, const Poly& want, LD tol, const Map* m )
{
	using F=typename O::FType; std::string K=how; Poly got=points(o); if( !c.chkf(K+"-number-of-points",got.size()==want.size(),[&]( std::ostream& s ) { s<<got.size(); }) ) return; bool ok=true; for( size_t i=0;i<got.size();i++ ) ok=ok&&std::fabs(got[i].x-want[i].x)<=tol&&std::fabs(got[i].y-want[i].y)<=tol; if( !c.chkf(K+"-points",ok,[&]( std::ostream& s ) { s<<o<<" expected "; for( auto& p:want ) s<<str(p)<<" "; s<<"tol "<<(double)tol; }) ) return;
	auto close=[&]( const char* k, LD a, LD b, LD t ) { c.near(K+"-"+k,a,b,t+1e-12L*std::fabs(b)); }; LD sz=0; for( auto& p:want ) sz=std::max(sz,ref::dist(p,want[0]));
	if constexpr( isPoly<O>() )
	{
		size_t n=want.size(); if( n>1 ) { close("length",(LD)o.length(),(LD)src.length(),4*n*tol); P lo=want[0],hi=lo; for( auto& p:want ) { lo.x=std::min(lo.x,p.x); lo.y=std::min(lo.y,p.y); hi.x=std::max(hi.x,p.x); hi.y=std::max(hi.y,p.y); } if( hi.x-lo.x>1e-3L&&hi.y-lo.y>1e-3L ) { auto b=o.getBB().getPts(); c.chk(K+"-bounding-box",std::fabs(b.first.getX()-lo.x)<=tol&&std::fabs(b.first.getY()-lo.y)<=tol&&std::fabs(b.second.getX()-hi.x)<=tol&&std::fabs(b.second.getY()-hi.y)<=tol); } auto sg=o.getSegs(); c.chk(K+"-segments",sg.size()==(o.isClosed()?n:n-1)); auto q0=o.getPoint(0); c.chk(K+"-getPoint",std::fabs(q0.getX()-want[0].x)<=tol); }
		if constexpr( std::is_same<O,CPolyline_<F>>::value ) { bool simple=n>2&&ref::simple(want); LD A=simple?std::fabs(ref::area2(want))/2:0; if( simple&&A>0.05L*sz*sz&&ref::clearance(want)>100*tol ) { c.chk(K+"-simple",o.isSimple()); close("area",(LD)o.area(),A,4*n*sz*tol+1e-11L*mag(want)*mag(want)*(sizeof(F)==4?1:1)); P cc=ref::centroid(want); LD sl=n*tol*40+1e-11L*std::pow(mag(want),3)/A; auto ce=o.centroid(); close("centroid-x",(LD)ce.getX(),cc.x,sl); close("centroid-y",(LD)ce.getY(),cc.y,sl); c.chk(K+"-convex-kept",o.isConvex()==src.isConvex());
			for( int k=0;k<3;k++ ) { P t{want[0].x+(LD)c.rng.d(-1,1)*sz,want[0].y+(LD)c.rng.d(-1,1)*sz}; t={(LD)(F)t.x,(LD)(F)t.y}; if( ref::dPoly(t,want)>200*tol+1e-6L*sz ) { c.chk(K+"-membership",Point2d_<F>((F)t.x,(F)t.y).isInside(o)==ref::inPoly(t,want)); } } } }
	}
	if constexpr( isSeg<O>() ) { close("length",(LD)o.length(),ref::dist(want[0],want[1]),4*tol); auto ce=o.getCenter(); close("center-x",(LD)ce.getX(),(want[0].x+want[1].x)/2,2*tol); close("center-y",(LD)ce.getY(),(want[0].y+want[1].y)/2,2*tol); auto l=o.getLine().get(); for( auto& p:want ) close("support",(LD)l[0]*p.x+(LD)l[1]*p.y+(LD)l[2],0,20*tol*(1+mag(want)/std::max(sz,(LD)1e-6L))+EPS<F>()*8*mag(want)); }
	if constexpr( isRect<O>() ) { close("width",(LD)o.width(),std::fabs(want[1].x-want[0].x),3*tol); close("height",(LD)o.height(),std::fabs(want[1].y-want[0].y),3*tol); close("area",(LD)o.area(),std::fabs((want[1].x-want[0].x)*(want[1].y-want[0].y)),6*sz*tol); auto ce=o.getCenter(); close("center-x",(LD)ce.getX(),(want[0].x+want[1].x)/2,2*tol); close("center-y",(LD)ce.getY(),(want[0].y+want[1].y)/2,2*tol); P t{(want[0].x+want[1].x)/2,(want[0].y+want[1].y)/2}; c.chk(K+"-membership",Point2d_<F>((F)t.x,(F)t.y).isInside(o)&&!Point2d_<F>((F)(want[1].x+sz),(F)t.y).isInside(o)); }
	if constexpr( isCir<O>() ) { c.chk(K+"-radius",o.radius()==src.radius()); c.chk(K+"-membership",Point2d_<F>((F)want[0].x,(F)want[0].y).isInside(o)); auto b=o.getBB().getPts(); LD R=(LD)src.radius(); LD t2=2*tol+EPS<F>()*4*R; close("bounding-box",(LD)b.first.getX(),want[0].x-R,t2); close("bounding-box",(LD)b.second.getY(),want[0].y+R,t2); }
	if constexpr( isEll<O>() ) { auto a=o.getMajMin(), b=src.getMajMin(); LD t2=tol*2000; close("major",(LD)a.first,(LD)b.first,t2); close("minor",(LD)a.second,(LD)b.second,t2); if( a.first-a.second>0.05L*a.first ) close("angle",std::fabs(sinl((LD)o.angle()-(LD)src.angle())),0,t2*20); auto bb=o.getBB(), b0=src.getBB(); close("bounding-box-size",(LD)bb.width(),(LD)b0.width(),t2*4); auto bc=bb.getCenter(); close("bounding-box-center",(LD)bc.getX(),want[0].x,t2*4); close("bounding-box-center",(LD)bc.getY(),want[0].y,t2*4); }
	if constexpr( !isEll<O>() ) { if( sizeof(F)>4 ) { O f=fresh(o,points(o)); O cp(o); bool deg=isPoly<O>()&&want.size()<2; if( !deg ) c.chk(K+"-equals-fresh",cp==f&&f==cp); } }
	if constexpr( std::is_same<O,OSegment_<F>>::value ) { P a=want[0],b=want[1],n{-(b-a).y,(b-a).x}; P l=ref::mid(a,b)+0.5L*n; auto s=o.getPointSide(Point2d_<F>((F)l.x,(F)l.y)); auto s0=OSegment_<F>(Point2d_<F>((F)a.x,(F)a.y),Point2d_<F>((F)b.x,(F)b.y)).getPointSide(Point2d_<F>((F)l.x,(F)l.y)); c.chk(K+"-orientation",s==s0); }
	(void)m;
}
template<typename O> void oneTranslate( mon::Case& c, O& o, P& d, int form )
{
	using F=typename O::FType; (void)sizeof(F); switch( form ) { case 0: { F x=(F)d.x,y=(F)d.y; d={(LD)x,(LD)y}; o.translate(x,y); break; } case 1: o.translate(std::make_pair((double)d.x,(float)d.y)); d={(LD)(double)d.x,(LD)(float)d.y}; break; case 2: translate(o,(double)d.x,(double)d.y); d={(LD)(double)d.x,(LD)(double)d.y}; break; case 3: translate(o,std::make_pair((float)d.x,(double)d.y)); d={(LD)(float)d.x,(LD)(double)d.y}; break; default: { int x=(int)d.x,y=(int)d.y; d={(LD)x,(LD)y}; if( form==4 ) o.translate(x,y); else translate(o,std::make_pair(x,(long)y)); } }
}
template<typename O> void scenario( mon::Case& c, O o, const char* name )
{
	using F=typename O::FType; auto& r=c.rng; c.cls(name); c.put(std::string(name)+" "+str(o)+"; "); O source(o), copy(o); Poly start=points(o), cur=start; const Poly orig=start; auto WARM=[&]{ Poly b=points(o); warm(c,o); if constexpr( isPoly<O>() ) { Poly a=points(o); std::vector<size_t> pm(a.size(),a.size()); bool ok=a.size()==b.size(); for( size_t i=0;ok&&i<a.size();i++ ) { for( size_t j=0;j<b.size();j++ ) if( b[j].x==a[i].x&&b[j].y==a[i].y ) pm[i]=j; ok=pm[i]<a.size(); } if( c.chk("queries-keep-points",ok) ) { Poly s2,c2; for( auto j:pm ) { s2.push_back(start[j]); c2.push_back(cur[j]); } start=s2; cur=c2; } } }; int n=(int)r.i(1,4); LD tol=0; std::vector<Map> done; auto T=[&]( const Poly& p, P d ) { return EPS<F>()*4*(mag(p)+std::fabs(d.x)+std::fabs(d.y)); }; LD ellT=isEll<O>()?1e-13L*(1+mag(start)):0; if( isEll<O>()&&sizeof(F)==4 ) ellT=1e-4L*(1+mag(start));
	bool empty=cur.empty(); int R=(int)r.pick(std::vector<int>{3,50,1000}); if( isEll<O>() ) R=20; auto rp=[&]{ return r.coin(4)?P{(LD)r.i(-R,R),(LD)r.i(-R,R)}:P{(LD)(F)r.d(-R,R),(LD)(F)r.d(-R,R)}; };
	for( int k=0;k<n;k++ )
	{
		if( r.coin() ) WARM(); if( r.coin(6) ) { O tmp(o); o=tmp; c.put("copied; "); } int what=(int)r.i(0,(isPoly<O>()||isRect<O>())?2:1); Poly before=cur;
		if( what==0 ) { P d=rp(); if( r.coin(8) ) d={0,0}; int f=(int)r.i(0,5); c.in("translate",d.x,d.y,f); oneTranslate(c,o,d,f); tol+=T(cur,d); Map m{0,d}; for( auto& p:cur ) p=m(p); done.push_back(m); c.cls("translate"+std::to_string(f)); }
		else if( what==1 )
		{
			P t=rp(); int f=(int)r.i(0,4); bool self=r.coin(5)&&!empty; size_t si=0; c.in("moveTo",t.x,t.y,f,self); Map m{0,{0,0}};
			if( empty ) { c.throws("move-empty",[&]{ if constexpr( !isPt<O>() ) o.moveTo((F)t.x,(F)t.y); else throw std::runtime_error(""); }); continue; }
			if( self ) { if constexpr( isPoly<O>() ) { si=(size_t)r.i(0,(long)cur.size()-1); t=cur[si]; const auto& ref=std::as_const(o).getPts()[si]; if( f%2 ) o.moveTo(ref); else moveTo(o,ref); } else if constexpr( isCir<O>() ) { t=cur[0]; o.moveTo(o.center()); } else if constexpr( isPt<O>() ) { t=cur[0]; o.moveTo(o); } else { auto q=o.getCenter(); t=rd(q); moveTo(o,q); } c.cls("moveTo:own point"); }
			else switch( f ) { case 0: o.moveTo(Point2d_<F>((F)t.x,(F)t.y)); t={(LD)(F)t.x,(LD)(F)t.y}; break; case 1: moveTo(o,Point2d_<double>((double)t.x,(double)t.y)); t={(LD)(double)t.x,(LD)(double)t.y}; break; case 2: o.moveTo(Point2d_<float>((float)t.x,(float)t.y)); t={(LD)(float)t.x,(LD)(float)t.y}; break;
				case 3: if constexpr( isPt<O>() ) { o.moveTo(Point2d_<F>((F)t.x,(F)t.y)); t={(LD)(F)t.x,(LD)(F)t.y}; } else { o.moveTo((F)t.x,(F)t.y); t={(LD)(F)t.x,(LD)(F)t.y}; } break;
				default: if constexpr( isPt<O>() ) { o.moveTo(Point2d_<F>((F)t.x,(F)t.y)); t={(LD)(F)t.x,(LD)(F)t.y}; } else { int a=(int)t.x,b=(int)t.y; moveTo(o,a,b); t={(LD)a,(LD)b}; } }
			m.d=t-cur[0]; tol+=T(cur,t)+T(cur,m.d); for( auto& p:cur ) p=m(p); done.push_back(m); c.cls("moveTo"+std::to_string(f));
		}
		else if constexpr( isPoly<O>()||isRect<O>() )
		{
			int q=(int)r.i(1,5), f=(int)r.i(0,4); P ref{0,0}; bool self=false; c.in("rotate",RN[q],f); if( f==0 ) o.rotate(RT[q]); else if( f==1 ) rotate(o,RT[q]); else { ref=rp(); if constexpr( isPoly<O>() ) if( r.coin(3)&&!empty ) { self=true; size_t si=(size_t)r.i(0,(long)cur.size()-1); ref=points(o)[si]; c.in("own-point",si); const auto& pt=std::as_const(o).getPts()[si]; if( f==2 ) o.rotate(RT[q],pt); else rotate(o,RT[q],pt); c.cls("rotate:own point"); } if( !self ) { c.in("ref",ref.x,ref.y); if( f==2 ) o.rotate(RT[q],Point2d_<F>((F)ref.x,(F)ref.y)); else if( f==3 ) rotate(o,RT[q],Point2d_<F>((F)ref.x,(F)ref.y)); else { o.rotate(RT[q],Point2d_<float>((float)ref.x,(float)ref.y)); ref={(LD)(float)ref.x,(LD)(float)ref.y}; } } }
			tol+=2*T(cur,ref); Map m{q,ref}; for( auto& p:cur ) p=m(p); if constexpr( isRect<O>() ) { P a=cur[0],b=cur[1]; cur={P{std::min(a.x,b.x),std::min(a.y,b.y)},P{std::max(a.x,b.x),std::max(a.y,b.y)}}; } done.push_back(m); c.cls(RN[q]);
		}
		(void)before; if( r.coin(3) ) { if( empty ) c.chk("empty-stays-empty",points(o).empty()); else compare(c,"step",o,source,cur,tol+ellT*(k+1),nullptr); }
	}
	if( empty ) { c.chk("empty-stays-empty",points(o).empty()); return; }
	if( r.coin() ) WARM(); compare(c,"moved",o,source,cur,tol+ellT*n,nullptr); c.chk("copy-kept",[&]{ auto q=points(copy); if( q.size()!=orig.size() ) return false; for( size_t i=0;i<q.size();i++ ) if( q[i].x!=orig[i].x||q[i].y!=orig[i].y ) return false; return true; }());
	// undoing everything restores the object
	for( size_t i=done.size(); i-->0; ) { Map m=done[i]; tol+=2*T(cur,m.d); if( m.kind==0 ) o.translate((F)-m.d.x,(F)-m.d.y); else if constexpr( isPoly<O>()||isRect<O>() ) o.rotate(RT[opposite(m.kind)],Point2d_<F>((F)m.d.x,(F)m.d.y)); } compare(c,"undone",o,source,start,2*tol+ellT*2*n,nullptr);
}
template<typename F> void types( mon::Case& c )
{
	auto& r=c.rng; int R=(int)r.pick(std::vector<int>{2,20,300}); auto g=[&]{ return r.coin(3)?Point2d_<F>((F)r.i(-R,R),(F)r.i(-R,R)):Point2d_<F>((F)r.d(-R,R),(F)r.d(-R,R)); }; auto two=[&]( auto& a, auto& b ) { a=g(); do b=g(); while( std::fabs(a.getX()-b.getX())<0.05||std::fabs(a.getY()-b.getY())<0.05 ); }; Point2d_<F> a,b;
	switch( r.i(0,9) )
	{
		case 0: { Point2d_<F> p=g(); if( r.coin(3) ) { F w=(F)r.d(0.3,4); p=Point2d_<F>(p.getX()*w,p.getY()*w,w); } scenario(c,p,"Point2d"); break; }
		case 1: two(a,b); scenario(c,Segment_<F>(a,b),"Segment"); break; case 2: two(a,b); scenario(c,OSegment_<F>(a,b),"OSegment"); break; case 3: two(a,b); scenario(c,FRect_<F>(a,b),"FRect"); break; case 4: scenario(c,Circle_<F>(g(),(F)r.d(0.1,R)),"Circle"); break;
		case 5: { F A=(F)r.d(1,20),B=(F)(A*r.d(0.2,1)); Point2d_<F> ce((F)r.d(-10,10),(F)r.d(-10,10)); scenario(c,Ellipse_<F>(ce,A,B,(F)r.d(-3,3)),"Ellipse"); break; }
		default: { bool cl=r.coin(); int n=gen::num(r,2,10); if( r.coin(20) ) n=0; std::vector<Point2d_<F>> v; if( n>2&&r.coin() ) { for( auto& p: starPoly(r,n,P{(LD)r.i(-R,R),(LD)r.i(-R,R)},0.4*R,R) ) v.emplace_back((F)p.x,(F)p.y); } else while( (int)v.size()<n ) { auto p=g(); bool far=true; for( auto& q:v ) far=far&&std::hypot(q.getX()-p.getX(),q.getY()-p.getY())>0.05; if( far||R==2 ) { if( far ) v.push_back(p); else if( r.coin(4) ) n--; } } if( v.size()==1 ) v.clear(); if( cl ) { CPolyline_<F> o; o.set(v); scenario(c,o,"CPolyline"); } else { OPolyline_<F> o; o.set(v); scenario(c,o,"OPolyline"); } }
	}
}
SECTION(moves_double,20000) { types<double>(c); }
SECTION(moves_float,8000) { types<float>(c); }
SECTION(moves_long_double,5000) { types<long double>(c); }
// integer moves of integer objects are exact in every type
template<typename F> void exactMoves( mon::Case& c )
{
	auto& r=c.rng; int n=(int)r.i(3,8); Poly w; std::vector<Point2d_<F>> v; while( (int)v.size()<n ) { P p{(LD)r.i(-30,30),(LD)r.i(-30,30)}; bool far=true; for( auto& q:w ) far=far&&ref::dist(p,q)>0.5L; if( far ) { w.push_back(p); v.emplace_back((F)p.x,(F)p.y); } } inV(c,"v",w); CPolyline_<F> pc(v); OPolyline_<F> po(v); FRect_<F> fr(Point2d_<F>((F)0,(F)0),Point2d_<F>((F)(3+n),(F)5)); Poly wr{{0,0},{(LD)3+n,5}}; int k=(int)r.i(1,5);
	for( int i=0;i<k;i++ ) { int q=(int)r.i(0,5); P d{(LD)r.i(-20,20),(LD)r.i(-20,20)}; Map m{q,d}; c.in(RN[q],d.x,d.y); Point2d_<F> ref((F)d.x,(F)d.y); if( q==0 ) { pc.translate((int)d.x,(int)d.y); po.translate((F)d.x,(F)d.y); fr.translate((F)d.x,(F)d.y); } else { pc.rotate(RT[q],ref); rotate(po,RT[q],ref); rotate(fr,RT[q],ref); } for( auto& p:w ) p=m(p); P a=m(wr[0]),b=m(wr[1]); wr={P{std::min(a.x,b.x),std::min(a.y,b.y)},P{std::max(a.x,b.x),std::max(a.y,b.y)}}; }
	auto same=[&]( const Poly& g, const Poly& e ) { if( g.size()!=e.size() ) return false; for( size_t i=0;i<g.size();i++ ) if( g[i].x!=e[i].x||g[i].y!=e[i].y ) return false; return true; }; c.chkf("exact-closed",same(points(pc),w),[&]( std::ostream& o ) { o<<pc; }); c.chkf("exact-open",same(points(po),w),[&]( std::ostream& o ) { o<<po; }); c.chkf("exact-rectangle",same(points(fr),wr),[&]( std::ostream& o ) { o<<fr; });
}
SECTION(exact,4000) { switch( c.rng.i(0,2) ) { case 0: exactMoves<float>(c); break; case 1: exactMoves<double>(c); break; default: exactMoves<long double>(c); } }
MON_MAIN
