#include "h2.hpp"
using namespace gen;

struct R4 { LD x0,y0,x1,y1; LD area() const { return (x1-x0)*(y1-y0); } };
static R4 canon( P a, P b ) { return { std::min(a.x,b.x),std::min(a.y,b.y),std::max(a.x,b.x),std::max(a.y,b.y) }; }
static void inR( mon::Case& c, const char* n, R4 r ) { c.in(n,r.x0,r.y0,r.x1,r.y1); }
static FRect mkR( mon::Rng& r, R4 q )
{
	Point2d a=mk({q.x0,q.y0}),b=mk({q.x1,q.y0}),d=mk({q.x1,q.y1}),e=mk({q.x0,q.y1});
	switch( r.i(0,5) )
	{
		case 0: return FRect(a,d);
		case 1: return FRect(d,a);
		case 2: return FRect(b,e);
		case 3: return FRect(e,b);
		case 4: return FRect((NT)q.x1,(NT)q.y0,(NT)q.x0,(NT)q.y1);
		default: { FRect f; f.set(e,b); return f; }
	}
}
// exact outlines of the union of two rectangles, without collinear vertices; nloops counts the closed curves
static Poly outline( R4 a, R4 b, int& nloops )
{
	std::vector<LD> xs{a.x0,a.x1,b.x0,b.x1}, ys{a.y0,a.y1,b.y0,b.y1};
	for( auto* v: {&xs,&ys} ) { std::sort(v->begin(),v->end()); v->erase(std::unique(v->begin(),v->end()),v->end()); }
	int nx=xs.size()-1, ny=ys.size()-1; auto in=[&]( int i, int j ) { if( i<0||j<0||i>=nx||j>=ny ) return false; LD x=(xs[i]+xs[i+1])/2,y=(ys[j]+ys[j+1])/2; auto f=[&]( R4 r ) { return x>r.x0&&x<r.x1&&y>r.y0&&y<r.y1; }; return f(a)||f(b); };
	std::vector<std::pair<P,P>> e; // directed, interior on the left
	for( int i=0;i<nx;i++ ) for( int j=0;j<ny;j++ ) if( in(i,j) ) {
		P p00{xs[i],ys[j]},p10{xs[i+1],ys[j]},p11{xs[i+1],ys[j+1]},p01{xs[i],ys[j+1]};
		if( !in(i,j-1) ) e.push_back({p00,p10}); if( !in(i+1,j) ) e.push_back({p10,p11}); if( !in(i,j+1) ) e.push_back({p11,p01}); if( !in(i-1,j) ) e.push_back({p01,p00});
	}
	nloops=0; Poly out; std::vector<char> used(e.size(),0);
	for( size_t s=0;s<e.size();s++ ) { if( used[s] ) continue; nloops++; Poly v; size_t k=s; for(;;) { used[k]=1; v.push_back(e[k].first); size_t n=e.size(); for( size_t m=0;m<e.size();m++ ) if( !used[m]&&e[m].first==e[k].second ) { n=m; break; } if( n==e.size() ) break; k=n; }
		Poly w; size_t n=v.size(); for( size_t i=0;i<n;i++ ) if( ref::crs(v[(i+n-1)%n],v[i],v[(i+1)%n])!=0 ) w.push_back(v[i]); out.insert(out.end(),w.begin(),w.end()); }
	return out;
}
static bool sameCycle( const Poly& a, const Poly& b )
{
	size_t n=a.size(); if( b.size()!=n ) return false; if( !n ) return true;
	for( int d: {1,-1} ) for( size_t s=0;s<n;s++ ) { bool ok=true; for( size_t i=0;ok&&i<n;i++ ) ok=a[i]==b[(s+(d>0?i:n-i))%n]; if( ok ) return true; }
	return false;
}
static std::string sv( const Poly& v ) { std::string s; for( auto&p:v ) s+=str(p); return s; }

static LD coord( mon::Rng& r, int mode, int R ) { switch( mode ) { case 0: return r.i(-R,R); case 1: return (LD)((double)r.i(-R,R)*0.1); case 2: return (LD)((double)r.i(-R,R)/3.+0.7); default: return r.d(-R,R); } }
static LD coord1( mon::Rng& r, int mode, int R ) { LD v=coord(r,mode,R); return (LD)(NT)v; }

static void judge( mon::Case& c, R4 a, R4 b )
{
	auto A=mkR(c.rng,a), B=mkR(c.rng,b); LD S=1; for( LD v: {a.x0,a.x1,a.y0,a.y1,b.x0,b.x1,b.y0,b.y1} ) S=std::max(S,std::fabs(v));
	R4 k{ std::max(a.x0,b.x0),std::max(a.y0,b.y0),std::min(a.x1,b.x1),std::min(a.y1,b.y1) };
	bool over = k.x0<k.x1&&k.y0<k.y1, touch = !over && k.x0<=k.x1&&k.y0<=k.y1;
	bool cornerTouch = touch && k.x0==k.x1 && k.y0==k.y1;
	bool nested = (a.x0<=b.x0&&a.y0<=b.y0&&a.x1>=b.x1&&a.y1>=b.y1)||(b.x0<=a.x0&&b.y0<=a.y0&&b.x1>=a.x1&&b.y1>=a.y1);
	c.cls( over?(nested?"nested":"overlap"):touch?(cornerTouch?"corner":"side"):"apart" );
	LD T=1e-9L*S;
	auto ckI=[&]( const std::string& key, const auto& r ) {
		if( !c.chkf(key+"-exists",r()==over,[&](std::ostream&o){o<<"got "<<r()<<" expected "<<over;}) || !over ) { if( !over && !r() ) c.throws(key+"-get-throws",[&]{ (void)r.get(); }); return; }
		auto g=r.get().getPts(); c.chkf(key,ref::dist(rd(g.first),P{k.x0,k.y0})<=T&&ref::dist(rd(g.second),P{k.x1,k.y1})<=T,[&](std::ostream&o){o<<r.get();}); };
	ckI("inter-AB",A.intersectArea(B)); ckI("inter-BA",B.intersectArea(A)); ckI("inter-and",A&B); ckI("inter-free",intersectArea(A,B)); ckI("inter-free-BA",intersectArea(B,A)); ckI("inter-self",over?(A&B).get()&(B&A).get():A&B);
	int nl; Poly ex=outline(a,b,nl);
	auto ckU=[&]( const std::string& key, const CPolyline& u ) {
		Poly g=rdv(u.getPts());
		if( !over&&!touch ) { c.chkf(key+"-empty",u.size()==0,[&](std::ostream&o){o<<sv(g);}); return; }
		if( cornerTouch ) { Poly e={{a.x0,a.y0},{a.x0,a.y1},{a.x1,a.y0},{a.x1,a.y1},{b.x0,b.y0},{b.x0,b.y1},{b.x1,b.y0},{b.x1,b.y1}}; std::sort(e.begin(),e.end()); auto h=g; std::sort(h.begin(),h.end()); c.chkf(key+"-corner",h==e&&std::fabs(std::fabs(ref::area2(g))/2-a.area()-b.area())<=T*S,[&](std::ostream&o){o<<sv(g);}); return; }
		c.chkf(key,sameCycle(g,ex),[&](std::ostream&o){o<<"got "<<sv(g)<<" expected "<<sv(ex);});
		c.near(key+"-area",u.area(),a.area()+b.area()-(over?k.area():0),T*S*10);
	};
	ckU("union-AB",A.unionArea(B)); ckU("union-BA",B.unionArea(A)); ckU("union-or",A|B); ckU("union-free",unionArea(A,B)); ckU("union-free-BA",unionArea(B,A));
	{ auto u=A|B; auto v=B|A; c.chk("union-equal",u==v); if( over||touch ) { R4 bb{std::min(a.x0,b.x0),std::min(a.y0,b.y0),std::max(a.x1,b.x1),std::max(a.y1,b.y1)}; c.chk("union-bb",u.getBB()==FRect(mk({bb.x0,bb.y0}),mk({bb.x1,bb.y1}))); } }
	LD e=over?k.area()/(a.area()+b.area()-k.area()):0; c.near("iou",IoU(A,B),e,1e-9L*(1+S*S/(a.area()+b.area()))); c.near("iou-sym",IoU(B,A),e,1e-9L*(1+S*S/(a.area()+b.area())));
	c.chk("equal",(A==B)==(a.x0==b.x0&&a.x1==b.x1&&a.y0==b.y0&&a.y1==b.y1)); c.chk("not-equal",(A!=B)==!(A==B));
}
// every relative placement of two rectangles on a grid (Allen's 13x13 relations), scaled to awkward coordinates
SECTION(placements,20000)
{
	int mode=(int)c.rng.i(0,3), n=(int)c.rng.i(4,7); std::vector<LD> gx,gy; for( auto* g: {&gx,&gy} ) { while( (int)g->size()<n ) { LD v=coord1(c.rng,mode,mode==3?50:20); bool ok=true; for( LD w:*g ) if( std::fabs(v-w)<1e-3L ) ok=false; if( ok ) g->push_back(v); } std::sort(g->begin(),g->end()); }
	auto two=[&]( const std::vector<LD>& g ) { int i=(int)c.rng.i(0,n-2), j=(int)c.rng.i(i+1,n-1); return std::make_pair(g[i],g[j]); };
	auto ax=two(gx), ay=two(gy), bx=two(gx), by=two(gy); R4 a{ax.first,ay.first,ax.second,ay.second}, b{bx.first,by.first,bx.second,by.second}; inR(c,"a",a); inR(c,"b",b); judge(c,a,b);
}
// exhaustive: both rectangles over all placements on a 5x5 grid
SECTION(exhaustive,10000)
{
	uint64_t k=c.idx; std::vector<std::pair<int,int>> iv; for( int i=0;i<5;i++ ) for( int j=i+1;j<5;j++ ) iv.push_back({i,j});
	auto t=[&]{ auto p=iv[k%10]; k/=10; return p; }; auto ax=t(),ay=t(),bx=t(),by=t(); double sc=(c.rng.coin()?1:0.1), o=c.rng.coin()?0:-0.3; auto f=[&]( int i ) { return (LD)(NT)(o+i*sc); };
	R4 a{f(ax.first),f(ay.first),f(ax.second),f(ay.second)}, b{f(bx.first),f(by.first),f(bx.second),f(by.second)}; inR(c,"a",a); inR(c,"b",b); judge(c,a,b);
}
// shape itself
SECTION(single,8000)
{
	P p=pt(c.rng), q=pt(c.rng); int dg=(int)c.rng.i(0,9); if( dg==0 ) q.x=p.x; if( dg==1 ) q.y=p.y; inP(c,"p",p); inP(c,"q",q);
	if( p.x==q.x||p.y==q.y ) { c.throws("null-area",[&]{ FRect f(mk(p),mk(q)); }); c.throws("null-area-set",[&]{ FRect f; f.set(mk(q),mk(p)); }); c.throws("null-area-num",[&]{ FRect f((NT)p.x,(NT)p.y,(NT)q.x,(NT)q.y); }); c.throws("null-area-pair",[&]{ FRect f(std::make_pair(mk(p),mk(q))); }); if( p.x==q.x ) { c.throws("null-w",[&]{ FRect f(mk(p),0.,2.); }); c.throws("null-h",[&]{ FRect f(mk(p),2.,0.); }); } return; }
	if( std::fabs(p.x-q.x)<1e-3L||std::fabs(p.y-q.y)<1e-3L ) { c.skip("thin"); return; }
	R4 r=canon(p,q); LD S=200, T=1e-9L; LD w=r.x1-r.x0,h=r.y1-r.y0;
	std::vector<FRect> all{ FRect(mk(p),mk(q)), FRect(mk(q),mk(p)), FRect(mk({p.x,q.y}),mk({q.x,p.y})), FRect(std::make_pair(mk(q),mk(p))), FRect((NT)p.x,(NT)q.y,(NT)q.x,(NT)p.y), mkR(c.rng,r) }; { FRect f; f.set((NT)q.x,(NT)p.y,(NT)p.x,(NT)q.y); all.push_back(f); FRect g(f); all.push_back(g); FRect hh; hh=f; all.push_back(hh); }
	FRect ctr( mk(ref::mid(p,q)), (NT)w, (NT)h ); { auto g=ctr.getPts(); c.chk("center-ctor",ref::dist(rd(g.first),{r.x0,r.y0})<=T&&ref::dist(rd(g.second),{r.x1,r.y1})<=T); }
	for( auto& f: all )
	{
		auto g=f.getPts(); c.chkf("canonical",rd(g.first)==P{r.x0,r.y0}&&rd(g.second)==P{r.x1,r.y1},[&](std::ostream&o){o<<f;}); auto g2=getPts(f); c.chk("getPts-free",rd(g2.first)==P{r.x0,r.y0}&&rd(g2.second)==P{r.x1,r.y1}); c.chk("equal",f==all[0]&&!(f!=all[0]));
	}
	auto& f=all[c.rng.i(0,all.size()-1)];
	c.near("width",f.width(),w,T); c.near("height",f.height(),h,T); c.near("area",f.area(),w*h,T*S); c.near("length",f.length(),2*(w+h),T*4); c.near("area-free",area(f),w*h,T*S); c.near("length-free",length(f),2*(w+h),T*4); c.eq("size",f.size(),4u);
	nearP(c,"center",f.getCenter(),ref::mid(p,q),T); nearP(c,"center-free",getCenter(f),ref::mid(p,q),T);
	Poly e4{{r.x0,r.y0},{r.x0,r.y1},{r.x1,r.y1},{r.x1,r.y0}}; c.chk("get4Pts",rdv(f.get4Pts())==e4); c.chk("get4Pts-free",rdv(get4Pts(f))==e4);
	auto sg=f.getSegs(); auto sg2=getSegs(f); for( int i=0;i<4;i++ ) { Segment s(mk(e4[i]),mk(e4[(i+1)%4])); c.chk("getSegs",sg[i]==s); c.chk("getSegs-free",sg2[i]==s); }
	auto dg2=f.getDiagonals(); c.chk("diag",dg2.first==Segment(mk(e4[0]),mk(e4[2]))&&dg2.second==Segment(mk(e4[1]),mk(e4[3]))); auto dg3=getDiagonals(f); c.chk("diag-free",dg3.first==dg2.first&&dg3.second==dg2.second);
	auto ex=f.getExtended().getPts(); c.chk("extended",ref::dist(rd(ex.first),{r.x0-w,r.y0-h})<=T&&ref::dist(rd(ex.second),{r.x1+w,r.y1+h})<=T);
	auto bc=f.getBoundingCircle(); c.near("bcircle-r",bc.radius(),std::hypot(w,h)/2,T); nearP(c,"bcircle-c",bc.center(),ref::mid(p,q),T); auto bc2=getBoundingCircle(f); c.chk("bcircle-free",bc2==bc);
	auto ic=f.getInscribedCircle(); c.near("icircle-r",ic.radius(),std::min(w,h)/2,T); nearP(c,"icircle-c",ic.center(),ref::mid(p,q),T); auto ic2=getInscribedCircle(f); c.chk("icircle-free",ic2==ic);
	c.chk("bb",f.getBB()==f); { CPolyline pl(f); Poly v=rdv(pl.getPts()); c.chk("as-polyline",sameCycle(v,e4)); c.chk("bb-poly",pl.getBB()==f); }
	FRect d; auto g=d.getPts(); c.chk("default",rd(g.first)==P{0,0}&&rd(g.second)==P{1,1});
	// equality distinguishes
	R4 m=r; LD dv=c.rng.coin()?1e-3L:c.rng.d(0.01,5); switch( c.rng.i(0,3) ) { case 0: m.x0-=dv; break; case 1: m.y0-=dv; break; case 2: m.x1+=dv; break; default: m.y1+=dv; } c.chk("differs",mkR(c.rng,m)!=f&&!(mkR(c.rng,m)==f));
}
// mixed numeric types
SECTION(mixed,2000)
{
	R4 a=canon({(LD)c.rng.i(-9,9),(LD)c.rng.i(-9,9)},{(LD)c.rng.i(10,15),(LD)c.rng.i(10,15)}), b=canon({(LD)c.rng.i(-9,9),(LD)c.rng.i(-9,9)},{(LD)c.rng.i(10,15),(LD)c.rng.i(10,15)}); inR(c,"a",a); inR(c,"b",b);
	FRectF A((float)a.x0,(float)a.y0,(float)a.x1,(float)a.y1); FRectL B((long double)b.x0,(long double)b.y0,(long double)b.x1,(long double)b.y1); LD k=(std::min(a.x1,b.x1)-std::max(a.x0,b.x0))*(std::min(a.y1,b.y1)-std::max(a.y0,b.y0));
	auto i=A&B; c.chk("mixed-inter",i()); if( i() ) c.near("mixed-inter-area",i.get().area(),k,1e-3L); int nl; Poly e=outline(a,b,nl);
	if( a.x0==b.x0&&a.y0==b.y0&&a.x1==b.x1&&a.y1==b.y1 ) return; c.chk("mixed-union",sameCycle(rdv((B|A).getPts()),e)); c.chk("mixed-union2",sameCycle(rdv((A|B).getPts()),e)); c.near("mixed-iou",IoU(A,B),k/(a.area()+b.area()-k),1e-5L);
}
MON_MAIN
