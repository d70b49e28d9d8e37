#include "h2.hpp"
using namespace gen;

static LD k3( mon::Rng& r ) { static const LD v[]={1,-1,2,-2,0.5,-0.25,8,-16,3,-3,0.1,-7}; return v[r.i(0,11)]; }

SECTION(join,20000)
{
	P p=pt(c.rng), q=ptFar(c.rng,p,1.0); inP(c,"p",p); inP(c,"q",q);
	Point2d a=mk(p), b=mk(q); LD tol=1e-10;
	std::vector<std::pair<std::string,Line2d>> ls;
	ls.push_back( {"op*",a*b} ); ls.push_back( {"op*swapped",b*a} ); ls.push_back( {"ctor",Line2d(a,b)} );
	ls.push_back( {"ctor4",Line2d((double)p.x,(double)p.y,(double)q.x,(double)q.y)} );
	LD k=k3(c.rng), m=k3(c.rng); c.in("k",k,m);
	Point2d ah( (NT)(p.x*k),(NT)(p.y*k),(NT)k ), bh( (NT)(q.x*m),(NT)(q.y*m),(NT)m );
	ls.push_back( {"homog",ah*bh} );
	{ Line2d l; l = Line2d( bh, a ); ls.push_back( {"mixed",l} ); }
	LD len=ref::dist(p,q);
	for( auto& l: ls )
	{
		c.chkf( "contains-p/"+l.first, dL(l.second,p)<=tol, [&](std::ostream&o){ o<<l.second<<" d="<<dL(l.second,p); } );
		c.chkf( "contains-q/"+l.first, dL(l.second,q)<=tol, [&](std::ostream&o){ o<<l.second<<" d="<<dL(l.second,q); } );
		c.near( "dist-p/"+l.first, l.second.distTo(a), 0, tol );
		c.near( "dist-q/"+l.first, b.distTo(l.second), 0, tol );
		// unit normal, canonical sign: any representation of the same line has the same coefficients
		auto ar=l.second.get(), ar0=ls[0].second.get();
		c.near( "unit-normal", std::hypot((LD)ar[0],(LD)ar[1]), 1, 1e-9 );
		if( std::fabs(p.y-q.y)>1e-6*len || p.y==q.y )
			c.chkf( "canonical/"+l.first, std::fabs(ar[0]-ar0[0])<1e-9 && std::fabs(ar[1]-ar0[1])<1e-9 && std::fabs(ar[2]-ar0[2])<1e-8, [&](std::ostream&o){ o<<l.second<<" vs "<<ls[0].second; } );
		LD off = std::fabs(ar[2]-ar0[2]);
		if( off<5e-11 ) { c.chk( "equal/"+l.first, l.second==ls[0].second, str(l.second) ); c.chk( "not-unequal/"+l.first, !(l.second!=ls[0].second) ); }
		// a third point: distance to the line
		P t=pt(c.rng); LD ex=ref::dLine(t,p,q);
		c.near( "third-dist/"+l.first, l.second.distTo( mk(t) ), ex, 1e-8 );
		c.near( "third-dist2/"+l.first, mk(t).distTo( l.second ), ex, 1e-8 );
	}
	// a different line is not equal
	P t=pt(c.rng); if( ref::dLine(t,p,q)>0.5 ) { c.chk( "different", a*b!=a*mk(t) && !(a*b==a*mk(t)), "" ); }
}

// horizontal and vertical lines known up to a rounding error: one canonical representation
SECTION(axis_noise,4000)
{
	bool h=c.rng.coin(); LD y0=c.rng.i(-20,20)+(c.rng.coin()?0:c.rng.d(-1,1)); y0=(double)y0; LD L=c.rng.i(1,12)*(c.rng.coin()?1:-1), e=c.rng.coin(4)?0:std::pow(10.L,c.rng.d(-15,-10.5))*(c.rng.coin()?1:-1), e2=c.rng.coin(4)?0:std::pow(10.L,c.rng.d(-15,-10.5))*(c.rng.coin()?1:-1); c.in("axis",h,y0,L,(double)e,(double)e2);
	auto at=[&]( LD s, LD t ) { return h?mk(P{s,t}):mk(P{t,s}); }; Line2d a(at(0,y0),at(L,y0+e*L)), b(at(0,y0),at(-L,y0-e2*L)), d=at(L,y0+e2*L)*at(0,y0), k(h?LineDir::H:LineDir::V,(NT)y0); Line2d t( h?(NT)(-e):(NT)1, h?(NT)1:(NT)(-e), (NT)(-y0) ), t2( h?(NT)(e*3):(NT)-3, h?(NT)-3:(NT)(3*e), (NT)(3*y0) ); std::vector<std::pair<std::string,Line2d>> v{{"a",a},{"b",b},{"d",d},{"dir",k},{"triplet",t},{"triplet2",t2}};
	for( auto& p: v ) { auto x=p.second.get(); c.near("noise-unit/"+p.first,std::hypot((LD)x[0],(LD)x[1]),1,1e-12); c.near("noise-sign/"+p.first,h?x[1]:x[0],1,1e-12); c.near("noise-offset/"+p.first,x[2],-y0,1e-9); for( auto& q: v ) c.chkf("noise-equal/"+p.first,p.second==q.second&&!(p.second!=q.second),[&](std::ostream&o){ o<<p.second<<" vs "<<q.first<<" "<<q.second; }); }
}

SECTION(join_identical,3000)
{
	P p=pt(c.rng); inP(c,"p",p);
	NT dx=0,dy=0; int w=c.rng.i(0,2);
	if( w==1 ) { dx=c.rng.d(-4e-11,4e-11); dy=c.rng.d(-4e-11,4e-11); }
	c.in("d",dx,dy);
	Point2d a=mk(p), b( (NT)p.x+dx, (NT)p.y+dy );
	if( w==2 ) { NT k=(NT)k3(c.rng); b=Point2d( (NT)(p.x*k),(NT)(p.y*k),k ); }
	c.chk( "equal", a==b ); c.chk( "equal-sym", b==a ); c.chk( "not-diff", !(a!=b) );
	c.throws( "op*", [&]{ auto l=a*b; (void)l; } );
	c.throws( "ctor", [&]{ Line2d l(a,b); } );
	c.throws( "ctor4", [&]{ Line2d l((NT)p.x,(NT)p.y,(NT)p.x,(NT)p.y); } );
	// clearly distinct points are accepted and differ
	LD s=std::pow(10.L,-c.rng.d(0,8)); P q{ p.x+s*k3(c.rng), p.y+s };
	Point2d d=mk(q); LD real=ref::dist(rd(d),rd(a));
	if( real>1e-9 ) { c.chk( "close-but-different", a!=d && !(a==d) ); c.quiet( "join-close", [&]{ auto l=a*d; (void)l; } ); }
}

SECTION(meet,20000)
{
	P p=pt(c.rng), q=ptFar(c.rng,p,1.0), u=pt(c.rng), v=ptFar(c.rng,u,1.0);
	inP(c,"p",p); inP(c,"q",q); inP(c,"u",u); inP(c,"v",v);
	P d1=q-p,d2=v-u; LD s=std::fabs(ref::crs(d1,d2))/(ref::norm(d1)*ref::norm(d2)); LD ang=asinl(std::min((LD)1,s));
	Line2d l1=mk(p)*mk(q), l2=mk(u)*mk(v);
	if( ang<0.02 ) { c.skip("near-parallel"); return; }
	LD t=ref::crs(u-p,d2)/ref::crs(d1,d2); P x=p+t*d1;
	LD tol=1e-9*(1+ref::norm(x))/s*10;
	Point2d m1=l1*l2, m2=l2*l1, m3(l1,l2), m4=l1.intersects(l2).get();
	nearP(c,"op*",m1,x,tol); nearP(c,"op*swapped",m2,x,tol); nearP(c,"ctor",m3,x,tol); nearP(c,"intersects",m4,x,tol);
	for( auto& m: { m1,m2,m3,m4 } )
	{
		c.near("on-l1",dL(l1,rd(m)),0,tol); c.near("on-l2",dL(l2,rd(m)),0,tol); c.chk("finite",!m.isInf());
	}
	c.chk("par-sym", l1.isParallelTo(l2)==l2.isParallelTo(l1)); c.chk("not-par",!l1.isParallelTo(l2)); c.chk("not-par-free",!areParallel(l1,l2));
	c.chk("inter-true", l1.intersects(l2)() && l1.intersects(l2).size()==1);
	c.chk("lines-differ", l1!=l2 && !(l1==l2));
	// duality: line through the meet and another point of l1 is l1
	if( ref::dist(x,p)>1 && ref::norm(x)<1e3 )
	{
		Line2d l=m1*mk(p); auto a=l.get(), b=l1.get();
		c.chkf( "dual", dL(l,q)<1e-7*(1+ref::dist(x,q)), [&](std::ostream&o){ o<<l<<" vs "<<l1; } ); (void)a;(void)b;
	}
}

SECTION(parallel,6000)
{
	P p=pt(c.rng), q=ptFar(c.rng,p,2.0); LD off=c.rng.d(0.5,50)*(c.rng.coin()?1:-1); LD k=c.rng.d(0.3,3)*(c.rng.coin()?1:-1);
	int w=c.rng.i(0,2); LD da = w==0 ? 0 : w==1 ? c.rng.d(-0.0008,0.0008) : c.rng.d(0.0015,0.01)*(c.rng.coin()?1:-1);
	P d=q-p; P n=(1/ref::norm(d))*P{-d.y,d.x}; P u=p+off*n; P v=u+k*ref::rot(d,da); if( w==0 && c.rng.coin() ) std::swap(u,v);
	inP(c,"p",p); inP(c,"q",q); inP(c,"u",u); inP(c,"v",v); c.in("da",da);
	if( ref::dist(u,v)<1 ) { c.skip("short"); return; }
	Line2d l1=mk(p)*mk(q), l2=mk(u)*mk(v);
	c.cls( w==2?"above-threshold":"parallel" );
	bool par = w<2;
	c.eq( "isParallelTo", l1.isParallelTo(l2), par ); c.eq( "isParallelTo-sym", l2.isParallelTo(l1), par ); c.eq( "areParallel", areParallel(l1,l2), par );
	c.eq( "intersects", l1.intersects(l2)(), !par ); c.eq( "inters-size", l1.intersects(l2).size(), (size_t)(par?0:1) );
	if( par )
	{
		c.throws( "meet-op", [&]{ auto x=l1*l2; (void)x; } ); c.throws( "meet-ctor", [&]{ Point2d x(l1,l2); } );
		c.throws( "get-throws", [&]{ l1.intersects(l2).get(); } );
		c.chk( "differ", l1!=l2 );
	}
	else c.quiet( "meet-ok", [&]{ auto x=l1*l2; (void)x; } );
	c.throws( "meet-self", [&]{ auto x=l1*l1; (void)x; } );
	c.chk( "self-parallel", l1.isParallelTo(l1) ); c.chk("self-equal",l1==l1 && !(l1!=l1));
}

SECTION(infinity,6000)
{
	P d=pt(c.rng); while( ref::norm(d)<0.5 ) d=pt(c.rng); P p=pt(c.rng); inP(c,"dir",d); inP(c,"p",p);
	if( c.rng.coin(4) ) d.x=0; else if( c.rng.coin(4) ) d.y=0; if( ref::norm(d)<0.5 ) d={0,1};
	Point2d inf( (NT)d.x,(NT)d.y,(NT)0 ), pp=mk(p);
	c.chk("isInf",inf.isInf()); c.chk("fin",!pp.isInf());
	for( auto& l: { inf*pp, pp*inf, Line2d(inf,pp), Line2d(pp,inf) } )
	{
		c.near("contains",dL(l,p),0,1e-9); P dd=dirL(l); c.near("direction",std::fabs(ref::crs(dd,d))/ref::norm(d),0,1e-10);
	}
	LD k=k3(c.rng); c.in("k",k);
	Point2d inf2( (NT)(k*d.x),(NT)(k*d.y),(NT)0 );
	c.chk("inf-equal-itself",inf==inf); c.chk("inf-equal-scaled",inf==inf2 && !(inf!=inf2), str(inf)+" "+str(inf2));
	c.chk("inf-not-finite",inf!=pp && !(inf==pp) && !(pp==inf));
	P e=ref::rot(d,c.rng.d(0.1,3.0)); Point2d inf3((NT)e.x,(NT)e.y,(NT)0);
	c.chk("inf-other-dir",inf!=inf3 && !(inf==inf3));
	c.throws("join-inf",[&]{ auto l=inf*inf2; (void)l; });
	c.throws("null-point",[&]{ Point2d x((NT)0,(NT)0,(NT)0); });
	c.throws("null-line",[&]{ Line2d x((NT)0,(NT)0,(NT)c.rng.i(-3,3)); });
}

SECTION(forms_line,10000)
{
	P p=pt(c.rng), q=ptFar(c.rng,p,1.0); P d=q-p; LD a=d.y,b=-d.x,cc=-(a*p.x+b*p.y); LD k=k3(c.rng);
	// float-exact values for the vector<float> form
	inP(c,"p",p); inP(c,"q",q); c.in("k",k);
	Line2d l0=mk(p)*mk(q);
	NT A=(NT)(k*a),B=(NT)(k*b),C=(NT)(k*cc);
	std::vector<std::pair<std::string,Line2d>> v;
	v.push_back({"triplet",Line2d(A,B,C)}); { Line2d l; l.set(A,B,C); v.push_back({"set",l}); } { Line2d l=Line2d( mk(q)*mk(pt(c.rng)+P{300,0}) ); l.set(A,B,C); v.push_back({"reset",l}); }
	v.push_back({"array",Line2d(std::array<NT,3>{A,B,C})}); v.push_back({"vector",Line2d(std::vector<NT>{A,B,C})});
	v.push_back({"arrayL",Line2d(std::array<long double,3>{(LD)A,(LD)B,(LD)C})}); v.push_back({"vectorL",Line2d(std::vector<long double>{(LD)A,(LD)B,(LD)C})});
	v.push_back({"copy",Line2d(l0)}); { Line2d l; l=l0; v.push_back({"assign",l}); }
	for( auto& l: v ) { c.near("on-p/"+l.first,dL(l.second,p),0,1e-9); c.near("on-q/"+l.first,dL(l.second,q),0,1e-9);
		auto x=l.second.get(), y=l0.get(); c.near("unit/"+l.first,std::hypot((LD)x[0],(LD)x[1]),1,1e-9);
		if( std::fabs(x[2]-y[2])<5e-11 && std::fabs(x[0]-y[0])<1e-9 ) c.chk("eq/"+l.first,l.second==l0); else c.chk("sign/"+l.first, std::fabs(x[2]-y[2])<1e-8, str(l.second)+" "+str(l0)); }
	{ std::array<float,3> fa{ (float)A,(float)B,(float)C }; Line2d lf(fa); std::vector<float> fv{(float)A,(float)B,(float)C}; Line2d lv(fv); Line2d le((NT)fa[0],(NT)fa[1],(NT)fa[2]);
	  auto x=lf.get(),y=lv.get(),z=le.get(); for( int i=0;i<3;i++ ) { c.near("float-array",x[i],z[i],1e-12*(1+std::fabs(z[i]))); c.near("float-vector",y[i],z[i],1e-12*(1+std::fabs(z[i]))); } }
	// through the origin
	if( ref::norm(p)>0.5 ) { for( auto& l: { Line2d((NT)p.x,(NT)p.y), Line2d(mk(p)) } ) { c.near("orig-0",dL(l,P{0,0}),0,1e-12); c.near("orig-p",dL(l,p),0,1e-10); } }
	// axis-parallel
	NT v0=(NT)co(c.rng); P t=pt(c.rng); c.in("v",v0); inP(c,"t",t);
	Line2d h1(LineDir::H,v0), v1(LineDir::V,v0), h2(LineDir::H,mk(t)), v2(LineDir::V,mk(t));
	c.near("H-val",dL(h1,P{t.x,(LD)v0}),0,1e-10); c.near("V-val",dL(v1,P{(LD)v0,t.y}),0,1e-10); c.near("H-pt",dL(h2,P{t.x+5,t.y}),0,1e-10); c.near("V-pt",dL(v2,P{t.x,t.y-7}),0,1e-10);
	c.near("H-dir",std::fabs(dirL(h1).x),1,1e-12); c.near("V-dir",std::fabs(dirL(v1).y),1,1e-12); c.near("H-dir2",std::fabs(dirL(h2).x),1,1e-12); c.near("V-dir2",std::fabs(dirL(v2).y),1,1e-12);
	c.chk("H-eq", h2==Line2d(mk(t),mk(t+P{3,0})) && h2==Line2d(mk(t+P{-5,0}),mk(t))); c.chk("V-eq", v2==Line2d(mk(t),mk(t+P{0,3})) && v2==Line2d(mk(t-P{0,8}),mk(t)));
	Line2d dl; c.near("default-V",dL(dl,P{0,t.y}),0,1e-12);
}

SECTION(forms_point,10000)
{
	P p=pt(c.rng); LD k=k3(c.rng); inP(c,"p",p); c.in("k",k); LD tol=1e-12*(1+ref::norm(p));
	NT X=(NT)(p.x*k),Y=(NT)(p.y*k),K=(NT)k;
	std::vector<std::pair<std::string,Point2d>> v;
	v.push_back({"xy",Point2d((NT)p.x,(NT)p.y)}); v.push_back({"triplet",Point2d(X,Y,K)}); { Point2d q; q.set((NT)p.x,(NT)p.y); v.push_back({"set2",q}); } { Point2d q(7,8,-2); q.set(X,Y,K); v.push_back({"set3",q}); }
	{ Point2d q(7,8,-2); q.set((NT)p.x,(NT)p.y); v.push_back({"set2b",q}); }
	v.push_back({"array",Point2d(std::array<NT,3>{X,Y,K})}); v.push_back({"vector",Point2d(std::vector<NT>{X,Y,K})}); v.push_back({"arrayL",Point2d(std::array<long double,3>{(LD)X,(LD)Y,(LD)K})}); v.push_back({"vectorL",Point2d(std::vector<long double>{(LD)X,(LD)Y,(LD)K})});
	v.push_back({"copy",Point2d(v[1].second)}); { Point2d q; q=v[1].second; v.push_back({"assign",q}); }
	for( auto& a: v )
	{
		c.near("x/"+a.first,a.second.getX(),p.x,tol); c.near("y/"+a.first,a.second.getY(),p.y,tol); c.near("fx/"+a.first,getX(a.second),p.x,tol); c.near("fy/"+a.first,getY(a.second),p.y,tol);
		for( auto& b: v ) { c.chk("eq/"+a.first,a.second==b.second && !(a.second!=b.second)); c.near("d0",a.second.distTo(b.second),0,1e-11); }
		auto h=a.second.get(); c.near("homog-x/"+a.first,(LD)h[0]/h[2],p.x,tol); c.near("homog-y/"+a.first,(LD)h[1]/h[2],p.y,tol);
	}
	c.chk("default", Point2d().getX()==0 && Point2d().getY()==0);
	P q=pt(c.rng); inP(c,"q",q); Point2d b=mk(q);
	for( auto& a: v ) { c.near("dist/"+a.first,a.second.distTo(b),ref::dist(p,q),1e-11*(1+ref::dist(p,q))); c.near("dist-free",dist(b,a.second),ref::dist(p,q),1e-11*(1+ref::dist(p,q))); }
	// ordering: lexicographic, whatever the representation
	P z = c.rng.coin(3) ? P{p.x,q.y} : q; NT m=(NT)k3(c.rng); if( z.x!=p.x || z.y!=p.y )
	{
		Point2d u=mk(p), w=mk(z); c.eq("lt",u<w,p<z); c.eq("gt",w<u,z<p);
		// power-of-two scales are exact
		NT e=std::ldexp((NT)1,(int)c.rng.i(-4,4))*(c.rng.coin()?1:-1); Point2d uh((NT)p.x*e,(NT)p.y*e,e); c.eq("lt-h",uh<w,p<z); c.eq("gt-h",w<uh,z<p); (void)m;
		c.eq("eq-h",uh==w,ref::dist(p,z)<1e-10L);
	}
	c.chk("irreflexive",!(v[1].second<v[1].second));
}

SECTION(order_sort,1500)
{
	int n=c.rng.i(3,20); Poly v; for( int i=0;i<n;i++ ) v.push_back( ipt(c.rng,4) ); inV(c,"v",v);
	auto w=mkv(v); for( auto& x: w ) if( c.rng.coin(3) ) { NT e=c.rng.coin()?-2:4; x=Point2d(x.getX()*e,x.getY()*e,e); }
	std::sort(w.begin(),w.end()); std::sort(v.begin(),v.end());
	for( int i=0;i<n;i++ ) c.chk("sorted",rd(w[i])==v[i],str(rd(w[i]))+" vs "+str(v[i]));
}
MON_MAIN
