#include "h2.hpp"
using namespace gen;
using ref::PI;
// reference state: the parametric curve center + a cos(t) u + b sin(t) v
struct E { P o; LD a,b,th; };
static P at( const E& e, LD t, LD k=1 ) { return e.o+ref::rot(P{k*e.a*cosl(t),k*e.b*sinl(t)},e.th); }
static std::string str( const E& e ) { std::ostringstream s; s<<std::setprecision(17)<<"ellipse "<<e.o.x<<","<<e.o.y<<" a="<<e.a<<" b="<<e.b<<" angle="<<e.th; return s.str(); }
// relative accuracy that the recovery of the parameters from a conic stored with unit roundoff u can reach
static LD relTol( const E& e, LD u ) { LD q=e.a/e.b, k=1+ref::dot(e.o,e.o)/(e.b*e.b); return u*40*q*q*q*q*k; }
static LD ellLen( LD a, LD b ) { int n=4000; LD s=0; for( int i=0;i<n;i++ ) { LD t=2*PI*(i+0.5L)/n; s+=std::hypot(a*sinl(t),b*cosl(t)); } return s*2*PI/n; }
template<typename F> struct Eps { static LD u() { return std::max<LD>(std::numeric_limits<F>::epsilon(),std::numeric_limits<NT>::epsilon()); } };
// u2 is the accumulated relative error allowed on the parameters
template<typename F> void judge( mon::Case& c, const std::string& k, const Ellipse_<F>& g, const E& e, LD T, bool len=false )
{
	if( T>1e-3L ) { c.cls("too-flat-or-far"); return; }
	LD fe=std::numeric_limits<F>::epsilon(), S=e.a+ref::norm(e.o), L=T*e.a+4*fe*S; bool cir=(e.a-e.b)<=e.a*1e-12L;
	LD TA=std::min<LD>(2,(T*4+1.05e-10L)/(cir?1e-30L:(1-(e.b*e.b)/(e.a*e.a)))+4*std::numeric_limits<NT>::epsilon()); if( !cir && 1-(e.b*e.b)/(e.a*e.a)<1e3L*T ) TA=2; // orientation lost near a circle
	auto show=[&](std::ostream&o){ o<<std::setprecision(17)<<"got "<<rd(g.getCenter()).x<<","<<rd(g.getCenter()).y<<" a="<<g.getMajMin().first<<" b="<<g.getMajMin().second<<" angle="<<g.angle()<<" expected "<<str(e)<<" rel tol "<<T<<" angle tol "<<TA; };
	auto m=g.getMajMin(); LD TB=T*e.a+T*e.a*(e.a/e.b)*0+0;
	c.chkf(k+"center",ref::dist(rd(g.getCenter()),e.o)<=L&&ref::dist(rd(getCenter(g)),e.o)<=L,show);
	c.chkf(k+"major",std::fabs((LD)m.first-e.a)<=TB&&m.first>=m.second*(1-1e-9L),show); c.chkf(k+"minor",std::fabs((LD)m.second-e.b)<=TB,show);
	c.chkf(k+"angle",TA>=1||(std::fabs(sinl((LD)g.angle()-e.th))<=TA&&std::fabs(sinl((LD)angle(g)-e.th))<=TA),show); c.chkf(k+"angle-range",std::isfinite((double)g.angle()),show);
	LD A=e.a*e.b*PI; c.chkf(k+"area",std::fabs((LD)g.area()-A)<=(2*T+1e-14L)*A*(e.a/e.b)&&std::fabs((LD)area(g)-A)<=(2*T+1e-14L)*A*(e.a/e.b),show);
	if( len ) { LD h=(e.a-e.b)*(e.a-e.b)/((e.a+e.b)*(e.a+e.b)), R=ellLen(e.a,e.b), tl=(2*T+1e-9L+5e-4L*h*h*h*h*h)*R; c.chkf(k+"length",std::fabs((LD)g.length()-R)<=tl&&std::fabs((LD)length(g)-R)<=tl,[&](std::ostream&o){ o<<"length "<<g.length()<<" expected "<<R<<" tol "<<tl<<"; "; show(o); }); c.chk(k+"size",g.size()==1); }
	// bounding box: tangent to the curve at its extremes
	{ LD hx=std::hypot(e.a*cosl(e.th),e.b*sinl(e.th)), hy=std::hypot(e.a*sinl(e.th),e.b*cosl(e.th)); if( TA<0.1L||cir ) { auto pp=g.getBB().getPts(); auto pq=getBB(g).getPts(); LD t=L+e.a*(cir?T:std::min<LD>(1,TA))*(e.a/std::min(hx,hy))+2e-15L*S; P p=rd(pp.first),q=rd(pp.second); c.chkf(k+"BB",std::fabs(p.x-e.o.x+hx)<=t&&std::fabs(q.x-e.o.x-hx)<=t&&std::fabs(p.y-e.o.y+hy)<=t&&std::fabs(q.y-e.o.y-hy)<=t&&rd(pq.first)==p&&rd(pq.second)==q,[&](std::ostream&o){ o<<"BB "<<str(p)<<str(q)<<" half sizes "<<hx<<","<<hy<<" tol "<<t<<"; "; show(o); }); } }
	// oriented box: rectangle around the center, sides tangent to the curve (any orientation for a circle)
	{ auto ob=g.getOBB(); auto ob2=getOBB(g); const auto& co=ob; const auto& co2=ob2; Poly v=rdv(co.getPts()); bool ok=v.size()==4&&rdv(co2.getPts())==v; LD t=L*4+e.a*(cir?T:std::min<LD>(TA,2));
	  if( ok ) { P u=v[1]-v[0], w=v[2]-v[1]; LD l1=ref::norm(u), l2=ref::norm(w), lo=std::min(l1,l2), hi=std::max(l1,l2); P dmaj=l1>l2?(1/l1)*u:(1/l2)*w; ok=ref::dist(v[0]+v[2],2*e.o)<=2*t&&ref::dist(v[1]+v[3],2*e.o)<=2*t&&std::fabs(lo-2*e.b)<=4*t&&std::fabs(hi-2*e.a)<=4*t&&std::fabs(ref::dot(u,w))<=8*t*hi&&(TA>0.5L||std::fabs(dmaj.x*sinl(e.th)-dmaj.y*cosl(e.th))<=TA*2+8*L/e.a+4*fe*S/e.a); }
	  c.chkf(k+"OBB",ok,[&](std::ostream&o){ o<<"OBB "; for( auto&p:v ) o<<str(p); o<<" tol "<<t<<"; "; show(o); }); }
	// axis lines
	if( S<2e3L ) { auto x=g.getAxisLines(); auto y=getAxisLines(g); LD t=L*4+1e-9L*(1+S)*(1+S/e.a); P d1=dirL(x.first),d2=dirL(x.second); c.chkf(k+"axis-through-center",dL(x.first,e.o)<=t&&dL(x.second,e.o)<=t,[&](std::ostream&o){ o<<x.first<<" / "<<x.second<<" off by "<<dL(x.first,e.o)<<","<<dL(x.second,e.o)<<" tol "<<t<<"; "; show(o); }); c.chkf(k+"axis-orthogonal",std::fabs(ref::dot(d1,d2))<=1e-9L+10*fe*(1+S/e.a),show); if( TA<0.5L ) c.chkf(k+"axis-direction",std::fabs(d1.x*sinl(e.th)-d1.y*cosl(e.th))<=TA*2+1e-10L+10*fe*(1+S/e.a),[&](std::ostream&o){ o<<x.first<<" dir "<<str(d1)<<"; "; show(o); }); c.chk(k+"axis-free",y.first==x.first&&y.second==x.second); }
	// circle test
	{ LD d=(e.a*e.a-e.b*e.b)/(e.a*e.a+e.b*e.b); if( cir && T<1e-11L && fe<1e-12L ) c.chkf(k+"isCircle",g.isCircle()&&isCircle(g),show); else if( d>1e-6L+10*T+10*fe ) c.chkf(k+"not-isCircle",!g.isCircle()&&!isCircle(g),show); LD D=std::max(std::fabs(d*cosl(2*e.th)),std::fabs(d*sinl(2*e.th))); if( TA<0.1L&&d>1e-3L+100*T+100*fe ) { c.chkf(k+"isCircle-thr",g.isCircle(D*1.2L+TA)&&isCircle(g,D*1.2L+TA)&&!g.isCircle(D*0.8L-TA),show); } }
	// membership
	for( int i=0;i<8;i++ ) { LD t=c.rng.d(0,6.2831), r=c.rng.pick(std::vector<LD>{0,0.3L,0.9L,0.999L,1.001L,1.1L,2,5}); P p=at(e,t,r); p={(LD)(double)p.x,(LD)(double)p.y}; P dd=ref::rot(p-e.o,-e.th); r=std::hypot(dd.x/e.a,dd.y/e.b); LD m=(T*e.a+(cir?0:std::min<LD>(TA,2)*e.a)+L)/e.b*std::max((LD)1,r); if( std::fabs(r-1)<4*m+1e-9L ) continue; bool in=r<1; c.chkf(k+(in?"point-in":"point-out"),g.pointIsInside(mk(p))==in&&mk(p).isInside(g)==in&&Point2d_<long double>(p.x,p.y).isInside(g)==in,[&](std::ostream&o){ o<<"point "<<::str(p)<<" at "<<r<<" of the boundary; "; show(o); }); }
}
template<typename F> std::string snap( const Ellipse_<F>& g ) { std::ostringstream s; s<<std::setprecision(21)<<rd(g.getCenter()).x<<" "<<rd(g.getCenter()).y<<" "<<g.getMajMin().first<<" "<<g.getMajMin().second<<" "<<g.angle()<<" "<<g.area()<<" "<<g.length()<<" "<<g.isCircle(); auto ob=g.getOBB(); for( auto&p: ob.getPts() ) s<<" "<<p.getX()<<" "<<p.getY(); auto b=g.getBB().getPts(); s<<" "<<b.first<<b.second; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) s<<" "<<g.value(i,j); return s.str(); }
static E rndE( mon::Case& c, LD qmax=12, LD cmax=40 )
{
	E e; int sz=(int)c.rng.i(0,9); LD sc=sz==0?std::pow(10,c.rng.d(-3,-1)):sz==1?std::pow(10,c.rng.d(2,3)):(LD)std::pow(10,c.rng.d(-0.5,1.5)); c.cls(sz==0?"small":sz==1?"large":"unit");
	e.b=sc; int k=(int)c.rng.i(0,7); e.a= k==0?e.b:k==1?e.b*(1+std::pow(10,c.rng.d(-5,-1))):e.b*c.rng.d(1.02,(double)qmax); if( sz>1&&c.rng.coin(3) ) { e.b=c.rng.i(1,6); e.a=e.b+(k==0?0:c.rng.i(1,20)); }
	switch( c.rng.i(0,6) ) { case 0: e.o={0,0}; c.cls("origin"); break; case 1: e.o={c.rng.coin()?0:(LD)c.rng.d(-5,5)*sc,0}; c.cls("on-axis"); break; case 2: e.o=ipt(c.rng,9); break; case 3: e.o={c.rng.d(-1,1)*(double)e.a,c.rng.d(-1,1)*(double)e.a}; c.cls("holds-origin?"); break; default: e.o={c.rng.d(-1,1)*(double)(cmax*std::max((LD)0.3L,std::min((LD)20,sc))),c.rng.d(-1,1)*(double)(cmax*std::max((LD)0.3L,std::min((LD)20,sc)))}; }
	switch( c.rng.i(0,5) ) { case 0: e.th=0; break; case 1: e.th=(LD)c.rng.i(-8,8)*PI/4; break; case 2: e.th=(LD)c.rng.i(-4,4)*PI/2+std::pow(10,c.rng.d(-12,-2))*(c.rng.coin()?1:-1); c.cls("near-axis"); break; case 3: e.th=c.rng.d(-12,12); break; default: e.th=c.rng.d(-3.15,3.15); }
	e.o={(LD)(double)e.o.x,(LD)(double)e.o.y}; e.a=(double)e.a; e.b=(double)e.b; e.th=(double)e.th; c.cls(e.a==e.b?"circle":"ellipse"); LD q=fmodl(std::fabs(e.th),PI); c.cls("quadrant"+std::to_string((int)(std::fmod((double)e.th+100*3.14159265358979,6.28318530717959)/1.5707963267949))); (void)q; return e;
}
static void show( mon::Case& c, const E& e ) { c.in("ell",e.o.x,e.o.y,e.a,e.b,e.th); }
SECTION(build,9000)
{
	E e=rndE(c); show(c,e); LD T=relTol(e,Eps<NT>::u()); bool sw=c.rng.coin(); LD p1=sw?e.b:e.a,p2=sw?e.a:e.b; if( sw&&e.a!=e.b ) c.cls("swapped"); E e2=e;
	Ellipse g((NT)e.o.x,(NT)e.o.y,(NT)p1,(NT)p2,(NT)e.th); judge(c,"",g,e2,T,c.rng.coin(4)); std::string s0=snap(g); (void)(g==g); (void)str(g); c.chk("queries-do-not-alter",snap(g)==s0);
	Ellipse h(mk(e.o),(NT)p1,(NT)p2,(NT)e.th), i(h), j; j=g; const Ellipse k=g; c.chk("eq-ctor",g==h&&h==g&&!(g!=h)); c.chk("eq-copy",i==g&&j==g&&k==g&&snap(i)==s0&&snap(j)==s0&&snap(k)==s0); Ellipse b2((NT)e.o.x,(NT)e.o.y,(NT)p2,(NT)p1,(NT)e.th); c.chk("eq-swapped",b2==g);
	{ E d=e; int w=(int)c.rng.i(0,4); LD m=c.rng.pick(std::vector<LD>{1e-3L,0.1L,1,-0.1L}); switch( w ) { case 0: d.o.x+=m*e.a; break; case 1: d.o.y+=m*e.a; break; case 2: d.a+=std::fabs(m)*e.a; break; case 3: d.b*=1-std::fabs(m)*0.5L; break; default: d.th+=0.2L; } if( w==4 && e.a<e.b*1.01L ) c.cls("circle-rotated"); else { Ellipse q((NT)d.o.x,(NT)d.o.y,(NT)d.a,(NT)d.b,(NT)d.th); std::string s1=snap(q); c.chkf("ne",q!=g&&g!=q&&!(q==g)&&!(g==q),[&](std::ostream&o){ o<<str(d)<<" compares equal to "<<str(e); }); c.chk("compare-does-not-alter",snap(q)==s1&&snap(g)==s0); judge(c,"compared-",g,e,T); judge(c,"compared2-",q,d,relTol(d,Eps<NT>::u())); } }
	c.chk("final-state",snap(g)==s0);
}
SECTION(types,4000)
{
	E e=rndE(c,6,3); e.o={(LD)(float)e.o.x,(LD)(float)e.o.y}; e.a=(float)e.a; e.b=(float)e.b; e.th=(float)e.th; show(c,e); LD Tn=relTol(e,Eps<NT>::u());
	{ EllipseF f((float)e.o.x,(float)e.o.y,(float)e.a,(float)e.b,(float)e.th); LD T=relTol(e,1.2e-7L); if( T<2e-3L ) { c.cls("float"); judge(c,"float-",f,e,T); Ellipse u(f); judge(c,"float-to-NT-",u,e,T); } }
	{ EllipseD d((double)e.o.x,(double)e.o.y,(double)e.a,(double)e.b,(double)e.th); LD T=relTol(e,2.3e-16L); judge(c,"double-",d,e,T); EllipseL l(d); judge(c,"double-to-long-",l,e,T); EllipseF f(d); if( relTol(e,1.2e-7L)<2e-3L ) judge(c,"double-to-float-",f,e,relTol(e,1.2e-7L)); }
	{ EllipseL l((long double)e.o.x,(long double)e.o.y,(long double)e.a,(long double)e.b,(long double)e.th); judge(c,"long-",l,e,Tn); EllipseD d(l); judge(c,"long-to-double-",d,e,relTol(e,2.3e-16L)); }
	{ int xi=(int)c.rng.i(-20,20),yi=(int)c.rng.i(-20,20),ai=(int)c.rng.i(2,30),bi=(int)c.rng.i(1,ai); c.in("int",xi,yi,ai,bi); Ellipse q(xi,yi,ai,bi); E x{{(LD)xi,(LD)yi},(LD)ai,(LD)bi,0}; judge(c,"int-",q,x,relTol(x,Eps<NT>::u())); Ellipse d(Point2d(xi,yi)); E y{{(LD)xi,(LD)yi},2,1,0}; judge(c,"default-axes-",d,y,relTol(y,Eps<NT>::u())); Ellipse z; judge(c,"default-",z,E{{0,0},2,1,0},1e-13L); }
	{ LD r=e.b; Circle_<NT> k(mk(e.o),(NT)r); Ellipse q(k); E x{e.o,r,r,0}; LD T=relTol(x,Eps<NT>::u()); judge(c,"from-circle-",q,x,T,true); if( T<1e-11L ) c.chk("from-circle-isCircle",q.isCircle()); Ellipse q2(mk(e.o),(NT)r,(NT)r,0.); c.chk("circle-eq",q2==q); }
}
SECTION(histories,5000)
{
	E e=rndE(c,5,6); show(c,e); Ellipse g((NT)e.o.x,(NT)e.o.y,(NT)e.a,(NT)e.b,(NT)e.th); LD T=relTol(e,Eps<NT>::u()); int n=(int)c.rng.i(1,8); LD far=std::max((LD)1,std::min((LD)20,e.a))*3;
	auto co=[&]{ return (LD)(double)(c.rng.coin(3)?(LD)c.rng.i(-5,5):(LD)c.rng.d(-1,1)*far); };
	for( int s=0;s<n;s++ )
	{
		LD x=co(),y=co(); int op=(int)c.rng.i(0,10); c.in("op",op,x,y); std::string k="op"+std::to_string(op)+"-"; c.cls(k); E e0=e;
		switch( op )
		{
			case 0: g.translate((NT)x,(NT)y); e.o=e.o+P{x,y}; break;
			case 1: g.moveTo((NT)x,(NT)y); e.o={x,y}; break;
			case 2: g.moveTo(mk(P{x,y})); e.o={x,y}; break;
			case 3: g.translate(std::make_pair((NT)x,(NT)y)); e.o=e.o+P{x,y}; break;
			case 4: translate(g,(NT)x,(NT)y); e.o=e.o+P{x,y}; break;
			case 5: translate(g,std::make_pair((NT)x,(NT)y)); e.o=e.o+P{x,y}; break;
			case 6: moveTo(g,mk(P{x,y})); e.o={x,y}; break;
			case 7: { Ellipse q(g); q.translate((NT)x,(NT)y); judge(c,"copied-",g,e,T); g=q; e.o=e.o+P{x,y}; break; }
			case 8: { LD an=(double)(c.rng.coin()?(LD)c.rng.i(-4,4)*PI/4:(LD)c.rng.d(-3.2,3.2)); c.in("rot",an); Homogr H; H.setRotation((NT)an); H.addTranslation((NT)x,(NT)y); g=H*g; e.o=ref::rot(e.o,an)+P{x,y}; e.th+=an; break; }
			case 9: { LD f=(double)std::exp(c.rng.d(-0.7,0.7)); c.in("scale",f); Homogr H; H.setScale((NT)f); g=H*g; e.o=f*e.o; e.a*=f; e.b*=f; break; }
			default: { Ellipse q; (void)q.area(); q=g; EllipseL l(g); judge(c,"conv-",l,e,T); g=Ellipse(l); }
		}
		if( ref::norm(e.o)>1e3L ) { c.skip("far"); return; } // the conic loses the shape of a small ellipse far away
		T+=relTol(e,Eps<NT>::u())+relTol(e0,Eps<NT>::u()); judge(c,k,g,e,T); std::string s0=snap(g); c.chk("stable",snap(g)==s0);
	}
}
SECTION(homography,9000)
{
	E e=rndE(c,6,4); show(c,e); bool cir=e.a==e.b; auto m=rndH(c.rng,c.rng.coin(),20); c.put("H="+::str(m)); Homogr H=mkH(m); LD w0=0,w1=0; int N=48; Poly q; for( int i=0;i<N;i++ ) { P p=at(e,2*PI*i/N); LD w=m[2][0]*p.x+m[2][1]*p.y+m[2][2]; if( i==0 ) w0=w1=w; w0=std::min(w0,w); w1=std::max(w1,w); }
	if( w0*w1<=0 || std::min(std::fabs(w0),std::fabs(w1))<0.2L*std::max(std::fabs(w0),std::fabs(w1)) || condM(m)>1e7L ) { c.skip("through infinity"); return; } for( int i=0;i<N;i++ ) q.push_back(ref::ap(m,at(e,2*PI*i/N)));
	Ellipse src((NT)e.o.x,(NT)e.o.y,(NT)e.a,(NT)e.b,(NT)e.th); std::string s0=snap(src);
	auto one=[&]( const std::string& k, const Ellipse& g, LD extra )
	{
		E r; r.o=rd(g.getCenter()); auto mm=g.getMajMin(); r.a=mm.first; r.b=mm.second; r.th=g.angle(); if( !(r.a>=r.b*(1-1e-6L)) || !(r.b>0) ) { c.chkf(k+"axes",false,[&](std::ostream&o){ o<<str(r); }); return; }
		LD cm=1; for( auto&p:q ) cm=std::max(cm,ref::norm(p)); LD lo=1e300L,hi=0; P ce{0,0}; for( auto&p:q ) { ce=ce+(1.0L/N)*p; } for( auto&p:q ) { LD d=ref::dist(p,ce); lo=std::min(lo,d); hi=std::max(hi,d); } E t{ce,hi,lo,0}; LD T=relTol(t,Eps<NT>::u())*condM(m)*4+relTol(e,Eps<NT>::u())*4+extra; if( T>1e-3L ) { c.skip("ill conditioned"); return; } LD worst=0; for( auto&p:q ) { P d=ref::rot(p-r.o,-r.th); worst=std::max(worst,std::fabs(std::hypot(d.x/r.a,d.y/r.b)-1)); } LD TB=T+2.1e-10L*hi/lo; c.chkf(k+"curve",worst<=TB,[&](std::ostream&o){ o<<"result "<<str(r)<<" the transformed curve is off by "<<worst<<" (relative) tol "<<T; });
		if( worst<=TB ) judge(c,k,g,r,std::max(T*4,(LD)1e-12L)); P in=ref::ap(m,e.o); c.chk(k+"image-of-center-inside",g.pointIsInside(mk(in)));
	};
	one("",H*src,0); c.chk("source-unchanged",snap(src)==s0); { Ellipse tmp; (void)tmp.area(); (void)tmp.angle(); tmp=H*src; one("assigned-",tmp,0); }
	if( cir ) { Circle k(mk(e.o),(NT)e.a); one("circle-",H*k,0); } { Homogr Hi(H); Hi.inverse(); if( condM(m)<1e4L ) { Ellipse back=Hi*(H*src); LD T=relTol(e,Eps<NT>::u())*condM(m)*condM(m)*8; E t; Ellipse fw=H*src; t.o=rd(fw.getCenter()); t.a=fw.getMajMin().first; t.b=fw.getMajMin().second; T+=relTol(t,Eps<NT>::u())*condM(m)*8; if( T<1e-5L ) { c.cls("round-trip"); judge(c,"round-trip-",back,e,T); } } }
}
SECTION(invariance,3000)
{	// the same ellipse at another scale has scaled parameters
	E e=rndE(c,6,4); LD k=c.rng.pick(std::vector<LD>{1e-3L,0.0625L,1e2L,16}); if( k*ref::norm(e.o)>2e3L||k*e.a>1e4L||k*e.b<1e-4L ) k=2; k=(double)k; show(c,e); c.in("k",k); E f{k*e.o,k*e.a,k*e.b,e.th}; f.o={(LD)(double)f.o.x,(LD)(double)f.o.y}; f.a=(double)f.a; f.b=(double)f.b; Ellipse g((NT)(double)f.o.x,(NT)(double)f.o.y,(NT)(double)f.a,(NT)(double)f.b,(NT)(double)f.th); Ellipse h((NT)e.o.x,(NT)e.o.y,(NT)e.a,(NT)e.b,(NT)e.th); judge(c,"scaled-",g,f,relTol(f,Eps<NT>::u())); if( (e.a-e.b)/e.a>1e-5L||e.a==e.b ) if( relTol(e,Eps<NT>::u())<1e-7L ) c.chk("isCircle-scale",g.isCircle()==h.isCircle()); Homogr H; H.setScale((NT)k); Ellipse hs=H*h; judge(c,"H-scaled-",hs,f,relTol(f,Eps<NT>::u())+relTol(e,Eps<NT>::u())*8+1e-15L*(1+ref::norm(e.o)/e.b));
}
MON_MAIN
