#include "h2.hpp"
using namespace gen;

static P unit( P a ) { return (1/ref::norm(a))*a; }
static bool sameCyc( const Poly& a, const Poly& b, LD tol ) { size_t n=a.size(); if( b.size()!=n ) return false; for( int d: {1,-1} ) for( size_t s=0;s<n;s++ ) { bool ok=true; for( size_t i=0;ok&&i<n;i++ ) ok=ref::dist(a[i],b[(s+(d>0?i:n-i))%n])<=tol; if( ok ) return true; } return n==0; }
static Poly rnd( mon::Case& c, int nmin )
{
	Poly v; int n=gen::num(c.rng,nmin,10);
	switch( c.rng.i(0,4) ) { case 0: v=convexPoly(c.rng,std::max(n,3),pt(c.rng,20),c.rng.d(1,30)); break; case 1: v=starPoly(c.rng,std::max(n,3),pt(c.rng,20),c.rng.d(1,5),c.rng.d(6,30)); break; default: v=simplePoly(c.rng,std::max(n,3),(int)c.rng.i(4,15)); }
	if( c.rng.coin(3) ) { LD m=c.rng.d(0.05,3), x=c.rng.d(-9,9); for( auto&p:v ) { p.x=(double)(p.x*m+x); p.y=(double)(p.y*m-x); } }
	if( c.rng.coin() ) std::reverse(v.begin(),v.end()); std::rotate(v.begin(),v.begin()+c.rng.i(0,v.size()-1),v.end()); return v;
}
// regular convex polygons
template<typename R,typename N> void rcp( mon::Case& c, R rad, N n )
{
	c.in("rad",(double)rad); c.in("n",(long)n); CPolyline p; int how=(int)c.rng.i(0,2); if( how==1 ) { p.set(mkv(Poly{{1,2},{5,5},{0,9}})); (void)p.area(); (void)p.length(); (void)(p==p); } auto r=p.set(rad,n); CPolyline q(rad,n);
	Poly v=rdv(static_cast<const CPolyline&>(p).getPts()); LD R0=(LD)rad, S=2*R0*std::sin(ref::PI/n), T=1e-9L*(1+R0); c.eq("size",v.size(),(size_t)n);
	for( size_t i=0;i<v.size();i++ ) { LD a=2*ref::PI*i/n; c.chkf("vertex",ref::dist(v[i],P{R0*std::cos(a),R0*std::sin(a)})<=T,[&](std::ostream&o){o<<i<<" got "<<str(v[i]);}); c.near("dist",ref::norm(v[i]),R0,T); }
	c.chk("first-on-axis",ref::dist(v[0],P{R0,0})<=1e-12L*(1+R0)); c.near("side",r.first,S,T); c.near("inscribed",r.second,R0*std::cos(ref::PI/n),T); c.chk("ctor",rdv(static_cast<const CPolyline&>(q).getPts())==v&&p==q);
	c.near("length",p.length(),n*S,T*n); c.near("area",p.area(),n*R0*R0*std::sin(2*ref::PI/n)/2,1e-8L*(1+R0*R0)); c.chk("convex",p.isConvex());
}
SECTION(rcp,3000)
{
	int n=c.rng.coin(4)?(int)c.rng.i(13,120):(int)c.rng.i(3,12); // n up to 120: larger ones approach the angle threshold
	switch( c.rng.i(0,3) ) { case 0: rcp(c,(int)c.rng.i(1,50),n); break; case 1: rcp(c,(float)c.rng.i(1,50),(size_t)n); break; case 2: rcp(c,(NT)c.rng.d(0.1,100),(short)n); break; default: rcp(c,(long double)c.rng.d(0.1,100),(long)n); }
}
SECTION(rcpBad,300)
{
	CPolyline p(mkv(Poly{{1,2},{5,5},{0,9}})), q(p); int n=(int)c.rng.i(-3,2); double r=c.rng.d(0.1,9); c.in("n",n,r);
	c.throws("few-points",[&]{ p.set(r,n); }); c.throws("few-points-ctor",[&]{ CPolyline z(r,n); }); c.throws("null-radius",[&]{ p.set(0.,5); }); c.throws("neg-radius",[&]{ p.set(-r,(int)c.rng.i(3,9)); }); c.throws("neg-radius-int",[&]{ p.set(-(int)c.rng.i(1,9),4); }); c.chk("unchanged",p==q);
}
// parallelogram
template<typename A,typename B,typename C> void paral( mon::Case& c, P a, P b, P d )
{
	Point2d_<A> p1(a.x,a.y); Point2d_<B> p2(b.x,b.y); Point2d_<C> p3(d.x,d.y); CPolyline p; if( c.rng.coin() ) { p.set(mkv(Poly{{1,2},{5,5},{0,9},{-3,4}})); (void)p.area(); (void)p.centroid(); (void)(p==CPolyline()); }
	p.setParallelogram(p1,p2,p3); Poly v=rdv(static_cast<const CPolyline&>(p).getPts()); P e=a+d-b; LD s=std::fabs(ref::crs(unit(a-b),unit(d-b))), L=1+std::max(std::max(ref::norm(a),ref::norm(b)),std::max(ref::norm(d),ref::norm(e))), T=1e-13L*L*L/s/std::min((LD)1,std::min(ref::dist(a,b),ref::dist(d,b)));
	c.eq("size",v.size(),4u); if( v.size()!=4 ) return; c.chk("given-points",v[0]==a&&v[1]==b&&v[2]==d); c.chkf("fourth",ref::dist(v[3],e)<=T,[&](std::ostream&o){o<<"got "<<str(v[3])<<" expected "<<str(e)<<" tol "<<T;});
	c.near("area",p.area(),std::fabs(ref::crs(a-b,d-b)),T*L*4); if( s>0.01L ) { c.chkf("convex",p.isConvex(),[&](std::ostream&o){o<<"size "<<v.size();}); nearP(c,"centroid",p.centroid(),ref::mid(a,d),T*10*L/s); }
}
SECTION(parallelogram,6000)
{
	P a=pt(c.rng,50), b=pt(c.rng,50), d=pt(c.rng,50); if( c.rng.coin(4) ) b.x=a.x; if( c.rng.coin(4) ) d.y=b.y; for( auto q: {&a,&b,&d} ) { q->x=(float)q->x; q->y=(float)q->y; }
	inP(c,"a",a); inP(c,"b",b); inP(c,"d",d); if( ref::dist(a,b)<1e-2L||ref::dist(b,d)<1e-2L||ref::dist(a,d)<1e-2L ) { c.skip("identical"); return; } LD s=std::fabs(ref::crs(unit(a-b),unit(d-b))); if( s<0.004L ) { c.skip("aligned"); return; }
	switch( c.rng.i(0,3) ) { case 0: paral<double,double,double>(c,a,b,d); break; case 1: paral<float,double,long double>(c,a,b,d); break; case 2: paral<long double,float,float>(c,a,b,d); break; default: paral<NT,NT,NT>(c,a,b,d); }
}
SECTION(parallelogramBad,500) { P a=ipt(c.rng,20), u=ipt(c.rng,5); if( ref::norm(u)==0 ) { c.skip("null"); return; } inP(c,"a",a); inP(c,"u",u); int k=(int)c.rng.i(2,6); CPolyline p(mkv(Poly{{1,2},{5,5},{0,9},{-3,4}})), q(p); c.throws("aligned",[&]{ p.setParallelogram(mk(a),mk(a+u),mk(a+(LD)k*u)); }); c.throws("same-first",[&]{ p.setParallelogram(mk(a),mk(a),mk(a+u)); }); c.throws("same-last",[&]{ p.setParallelogram(mk(a),mk(a+u),mk(a+u)); }); c.chk("unchanged",p==q); }
// offset polygons
SECTION(offset,12000)
{
	Poly v=rnd(c,3); size_t n=v.size(); if( c.rng.coin(4) ) { size_t k=c.rng.i(0,n-1); P m=ref::mid(v[k],v[(k+1)%n]); if( m.x==(double)m.x&&m.y==(double)m.y ) { v.insert(v.begin()+k+1,m); n++; } }
	inV(c,"v",v); LD clr=ref::clearance(v); if( clr<1e-3L ) { c.skip("clearance"); return; } LD d=c.rng.coin()?c.rng.d(0.01,0.4)*(double)clr:c.rng.coin()?c.rng.d(0.05,5):(double)c.rng.i(1,5); if( c.rng.coin() ) d=-d; bool asInt=(d==std::round(d)); d=(double)d; c.in("d",(double)d);
	P g; LD A=ref::area2(v); int or_=A>0?1:-1; std::vector<P> nrm; for( size_t i=0;i<n;i++ ) { P e=unit(v[(i+1)%n]-v[i]); nrm.push_back(or_>0?P{e.y,-e.x}:P{-e.y,e.x}); } (void)g;
	bool split=c.rng.coin(3); c.in("split",split); OffsetPolyParams par; par._angleSplit=split; Poly e; LD cond=1;
	for( size_t i=0;i<n;i++ )
	{
		P n1=nrm[(i+n-1)%n], n2=nrm[i]; LD cs=ref::dot(n1,n2), sn=ref::crs(n1,n2)*or_, ang=std::atan2(sn,cs); // sn>0: convex vertex
		if( std::fabs(ang)>0.0005L&&std::fabs(ang)<(split?0.0032L:0.0015L) ) { c.skip("near-parallel"); return; } if( std::fabs(ang)<0.001L ) continue; if( 1+cs<1e-4L ) { c.skip("spike"); return; } cond=std::max(cond,1/(1+cs)/std::min((LD)1,std::fabs(sn)));
		if( split && d>0 && sn>0 ) { P b=unit(n1+n2); e.push_back(v[i]+(d/(1+ref::dot(n1,b)))*(n1+b)); e.push_back(v[i]+(d/(1+ref::dot(b,n2)))*(b+n2)); cond=std::max(cond,1/std::fabs(ref::crs(n1,b))); }
		else e.push_back(v[i]+(d/(1+cs))*(n1+n2));
	}
	for( size_t i=0;i<e.size();i++ ) if( ref::dist(e[i],e[(i+1)%e.size()])<1e-4L ) { c.skip("merged"); return; }
	LD S=1; for( auto&p:v ) S=std::max(S,ref::norm(p)); for( auto&p:e ) S=std::max(S,ref::norm(p)); LD T=1e-12L*S*S*cond*std::max((LD)1,1/clr); c.cls(d>0?(split?"out-split":"out"):"in"); c.cls(or_>0?"ccw":"cw");
	auto w=mkv(v); CPolyline p(w); int pre=(int)c.rng.i(0,3); if( pre==0 ) (void)(p==p); if( pre==1 ) (void)p.area(); CPolyline r; if( asInt&&c.rng.coin() ) r=p.getOffsetPoly((int)d,par); else if( split||c.rng.coin() ) r=p.getOffsetPoly((NT)d,par); else r=p.getOffsetPoly((double)d);
	Poly got=rdv(static_cast<const CPolyline&>(r).getPts()); c.chkf("vertices",sameCyc(got,e,T),[&](std::ostream&o){o<<"got ";for(auto&q:got)o<<str(q);o<<" expected ";for(auto&q:e)o<<str(q);o<<" tol "<<T;});
	c.chk("source-kept",sameCyc(rdv(static_cast<const CPolyline&>(p).getPts()),v,0)); 
	if( std::fabs(d)<0.05L*clr && cond<100 && !split ) { if( ref::simple(got) ) c.chk("side",d>0?r.area()>p.area():r.area()<p.area()); for( auto&q:e ) { bool in=p.size()&&mk(q).isInside(p); c.chk("outside-inside",in==(d<0)); } }
	{ auto it=c.rng.i(1,(int)n-1); auto w2=w; std::rotate(w2.begin(),w2.begin()+it,w2.end()); std::reverse(w2.begin(),w2.end()); CPolyline p2(w2); Poly g2=rdv(static_cast<const CPolyline&>(static_cast<const CPolyline&>(p2).getOffsetPoly((double)d,par)).getPts()); c.chk("orientation-free",sameCyc(g2,e,T)); }
}
SECTION(offsetBad,1500)
{
	Poly v; int k=(int)c.rng.i(0,3); c.in("k",k); double d=c.rng.d(-5,5); if( k==0 ) { v=rnd(c,3); d=c.rng.coin()?0:1e-11; } else if( k==1 ) v={ipt(c.rng,5),ipt(c.rng,5)+P{20,0}}; else if( k==2 ) { P a=ipt(c.rng,9); LD w=c.rng.i(1,9),h=c.rng.i(1,9); v={a,a+P{w,h},a+P{w,0},a+P{0,h}}; } inV(c,"v",v); c.in("d",d);
	CPolyline p(mkv(v)); size_t s=1; c.quiet("no-throw",[&]{ s=p.getOffsetPoly(d).size(); }); c.eq("empty",s,0u); if( v.size()>2 ) { OPolyline o(mkv(v)); c.quiet("open-no-throw",[&]{ s=o.getOffsetPoly(1.).size(); }); c.eq("open-empty",s,0u); }
}
// bisector lines, edge lines
template<typename PL> void lines( mon::Case& c )
{
	const bool closed=std::is_same_v<PL,CPolyline>; Poly v; int n=gen::num(c.rng,3,9,30,0); for( int i=0;i<n;i++ ) v.push_back(c.rng.coin(3)?ipt(c.rng,8):pt(c.rng,40)); inV(c,"v",v); for( int i=0;i<n;i++ ) if( ref::dist(v[i],v[(i+1)%n])<1e-2L ) { c.skip("invalid"); return; }
	PL p(mkv(v)); const PL& cp=p; if( c.rng.coin(3) ) { (void)(p==p); v=rdv(cp.getPts()); } auto b=getBisectorLines(cp); auto b2=cp.getBisectorLines(); size_t off=closed?0:1; c.chk("size",b.size()==(size_t)(closed?n:n-2)&&b2.size()==b.size()); if( b.size()!=(size_t)(closed?n:n-2) ) return;
	for( size_t i=0;i<b.size();i++ )
	{
		P q=v[i+off], a=unit(v[(i+off+n-1)%n]-q), d=unit(v[(i+off+1)%n]-q); LD cs=ref::dot(a,d), S=1+ref::norm(q); c.chkf("through-vertex",dL(b[i],q)<=1e-11L*S*S,[&](std::ostream&o){o<<i<<" dist "<<dL(b[i],q);}); P dir=dirL(b[i]);
		P ex=(1+cs<1e-10L)?P{-a.y,a.x}:unit(a+d); LD T=1e-11L*S*S/std::min((LD)1,std::min(ref::dist(v[(i+off+n-1)%n],q),ref::dist(v[(i+off+1)%n],q))); if( 1+cs<1e-4L&&1+cs>=1e-10L ) T*=1e3L;
		c.chkf("bisects",std::fabs(ref::crs(dir,ex))<=T,[&](std::ostream&o){o<<i<<" dir "<<str(dir)<<" expected "<<str(ex);}); c.chk("free",b[i]==b2[i]);
	}
	auto sg=cp.getSegs(); auto li=getLines(sg); auto ce=getCenters(sg); c.eq("lines-size",li.size(),sg.size()); c.eq("centers-size",ce.size(),sg.size()); for( size_t i=0;i<sg.size()&&i<li.size()&&i<ce.size();i++ ) { LD S=1+ref::norm(v[i])+ref::norm(v[(i+1)%n]); c.chk("edge-line",dL(li[i],v[i])<=1e-12L*S*S&&dL(li[i],v[(i+1)%n])<=1e-12L*S*S); c.chk("edge-center",ref::dist(rd(ce[i]),ref::mid(v[i],v[(i+1)%n]))<=1e-13L*S); }
}
SECTION(linesClosed,4000) { lines<CPolyline>(c); }
SECTION(linesOpen,3000) { lines<OPolyline>(c); }
SECTION(linesBad,200) { P a=ipt(c.rng,9); inP(c,"a",a); CPolyline p(mkv({a,a+P{1,2}})); OPolyline o(mkv({a,a+P{1,2}})); CPolyline e; c.throws("two-closed",[&]{ (void)getBisectorLines(p); }); c.throws("two-open",[&]{ (void)getBisectorLines(o); }); c.throws("empty",[&]{ (void)getBisectorLines(e); }); }
// closest points
template<typename A,typename B> void closest( mon::Case& c )
{
	auto g=[&]{ Poly v; int n=gen::num(c.rng,2,12), R=(int)c.rng.i(2,30); for(;;) { v.clear(); for( int i=0;i<n;i++ ) v.push_back(c.rng.coin()?ipt(c.rng,R):pt(c.rng,R)); bool ok=true; for( int i=0;i<n;i++ ) if( ref::dist(v[i],v[(i+1)%n])<1e-3L ) ok=false; if( ok ) break; } for( auto&p:v ) { p.x=(float)p.x; p.y=(float)p.y; } return v; };
	Poly v=g(), w=g(); if( c.rng.coin(4) ) w[c.rng.i(0,w.size()-1)]=v[c.rng.i(0,v.size()-1)]; for( size_t i=0;i<w.size();i++ ) if( ref::dist(w[i],w[(i+1)%w.size()])<1e-3L ) { c.skip("invalid"); return; } inV(c,"v",v); inV(c,"w",w);
	auto mkA=[&]{ std::vector<Point2d_<typename A::FType>> q; for( auto&p:v ) q.emplace_back((typename A::FType)p.x,(typename A::FType)p.y); return A(q); }; auto mkB=[&]{ std::vector<Point2d_<typename B::FType>> q; for( auto&p:w ) q.emplace_back((typename B::FType)p.x,(typename B::FType)p.y); return B(q); };
	const A a=mkA(); const B b=mkB(); LD m=1e300L; for( auto&p:v ) for( auto&q:w ) m=std::min(m,ref::dist(p,q)); LD T=1e-5L*(1+m); if( !std::is_same_v<typename A::FType,float>&&!std::is_same_v<typename B::FType,float> ) T=1e-12L*(1+m);
	auto r=c.rng.coin()?getClosestPoints(a,b):getClosestPoints(mkA(),mkB()); auto ix=r.getIndexes(); auto pp=r.getPoints(); c.near("min-dist",r.getMinDist(),m,T); c.chk("index-range",ix.first<v.size()&&ix.second<w.size()); if( ix.first>=v.size()||ix.second>=w.size() ) return;
	c.near("pair-dist",ref::dist(v[ix.first],w[ix.second]),m,T); c.chk("points",rd(pp.first)==v[ix.first]&&rd(pp.second)==w[ix.second]); auto r2=getClosestPoints(b,a); c.near("symmetric",r2.getMinDist(),m,T); c.cls(m==0?"common-point":"apart");
	A ea; B eb; c.throws("empty-1",[&]{ (void)getClosestPoints(ea,b); }); c.throws("empty-2",[&]{ (void)getClosestPoints(a,eb); });
}
SECTION(closestCC,3000) { closest<CPolyline,CPolyline>(c); }
SECTION(closestCO,2000) { closest<CPolyline_<double>,OPolyline_<long double>>(c); }
SECTION(closestOO,2000) { closest<OPolyline_<float>,OPolyline_<double>>(c); }
MON_MAIN
