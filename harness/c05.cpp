#include "h2.hpp"
using namespace gen; using ref::M3;

static bool wOk( const M3& m, P p ) { LD w=ref::apw(m,p); return std::fabs(w)>0.2L; }
// a homography object holding m, reached through some history
static Homogr hist( mon::Case& c, const M3& m )
{
	Homogr H; int how=(int)c.rng.i(0,7); c.in("history",how);
	auto use=[&]( Homogr& h ) { Line2d l=h*Line2d(1,2,3); (void)l; Segment s=h*Segment(1,2,5,6); (void)s; };
	switch( how )
	{
		case 0: H=mkH(m); break;
		case 1: H=mkH(rndH(c.rng)); use(H); H=mkH(m); break;
		case 2: H=mkH(rndH(c.rng)); use(H); setM(H,m); break;
		case 3: use(H); for(int i=0;i<3;i++)for(int j=0;j<3;j++) H.value(i,j)=(NT)m[i][j]; break;
		case 4: { Homogr G=mkH(rndH(c.rng)); use(G); Homogr T=mkH(m); H=T*G; Homogr GI=G; GI.inverse(); use(H); H=H*GI; break; }
		case 5: H=mkH(ref::transp(m)); use(H); H.transpose(); break;
		case 6: H=mkH(m); use(H); { Homogr G; bool d=(H==G); (void)d; } break;
		default: { M3 k=m; for( auto&r:k ) for( auto&v:r ) v*=-4; setM(H,k); use(H); if( c.rng.coin() ) { Homogr G=H; H=G; } }
	}
	return H;
}
static bool okM( const M3& m ) { return condM(m)<2e4 && std::fabs(ref::inv(m)[2][2])>1e-3*frob(ref::inv(m)); }
static LD tolOf( const Poly& v ) { LD t=1; for( auto& p: v ) t=std::max(t,ref::norm(p)); return 1e-6L*t; }
// how far is q from the ellipse, as relative radius error
static LD ellErr( P ce, LD a, LD b, LD th, P q ) { P d=ref::rot(q-ce,-th); return std::fabs( std::hypot(d.x/a,d.y/b)-1 ); }
template<typename E> static LD ellErr( const E& e, P q ) { auto mm=e.getMajMin(); return ellErr( rd(e.getCenter()), mm.first, mm.second, e.angle(), q ); }

SECTION(linear,10000)
{
	M3 m=rndH(c.rng); if( !okM(m) ) { c.skip("ill-conditioned"); return; } c.put(str(m)); Homogr H=hist(c,m); M3 before=rdM(H);
	P p=pt(c.rng),q=ptFar(c.rng,p,0.5),r=pt(c.rng); inP(c,"p",p); inP(c,"q",q); if( !wOk(m,p)||!wOk(m,q)||!wOk(m,r) ) { c.skip("horizon"); return; }
	P a=ref::ap(m,p),b=ref::ap(m,q),rr=ref::ap(m,r); LD tol=tolOf({a,b,rr});
	for( int rep=0;rep<2;rep++ )
	{
		nearP(c,"point",H*mk(p),a,tol);
		if( ref::dist(a,b)>0.05 )
		{
			Line2d l=H*(mk(p)*mk(q)); c.near("line-p",dL(l,a),0,tol); c.near("line-q",dL(l,b),0,tol);
			Line2d l2=(H*mk(p))*(H*mk(q)); c.near("line-join",std::fabs(ref::crs(dirL(l),dirL(l2))),0,1e-5*(1+1/ref::dist(a,b)));
			{ auto x=l.get(), y=Line2d((NT)a.x,(NT)a.y,(NT)b.x,(NT)b.y).get(); LD dd=ref::dist(a,b); c.near("line-unit-normal",std::hypot((LD)x[0],(LD)x[1]),1,1e-9); if( std::fabs(y[0])>1e-4 ) { c.chk("line-canonical-sign",x[0]>0); for( int i=0;i<3;i++ ) c.near("line-canonical",x[i],y[i],1e-5L*(1+1/dd)*(1+tol*1e6L)); } }
			LD k=c.rng.d(-1,2); P s=p+k*(q-p); if( wOk(m,s) ) c.near("line-third",dL(l,ref::ap(m,s)),0,tol*(1+ref::norm(ref::ap(m,s))/10));
			auto sg=H*Segment(mk(p),mk(q)); auto pp=sg.getPts(); P lo=std::min(a,b),hi=std::max(a,b); c.chkf("segment",(ref::dist(rd(pp.first),lo)<tol&&ref::dist(rd(pp.second),hi)<tol)||(std::fabs(a.x-b.x)<tol&&ref::dist(rd(pp.first),hi)<tol),[&](std::ostream&o){o<<sg;});
			auto so=H*OSegment(mk(p),mk(q)); auto po=so.getPts(); c.chkf("osegment",ref::dist(rd(po.first),a)<tol&&ref::dist(rd(po.second),b)<tol,[&](std::ostream&o){o<<so<<" expected "<<str(a)<<str(b);}); c.eq("osegment-type",getString(so.type()),std::string(getString(Type::OSegment)));
		}
		c.chk("unchanged",projDiff(rdM(H),before)<1e-13);
	}
	// rectangle
	if( std::fabs(p.x-q.x)>0.1 && std::fabs(p.y-q.y)>0.1 )
	{
		FRect fr(mk(p),mk(q)); LD x0=std::min(p.x,q.x),x1=std::max(p.x,q.x),y0=std::min(p.y,q.y),y1=std::max(p.y,q.y); Poly co{{x0,y0},{x0,y1},{x1,y1},{x1,y0}}; bool ok=true; for( auto& k: co ) ok=ok&&wOk(m,k);
		if( ok ) { Poly e; for( auto& k: co ) e.push_back(ref::ap(m,k)); CPolyline cp=H*fr; LD t2=tolOf(e); c.eq("rect-size",cp.size(),(size_t)4); bool good=cp.size()==4; for( int i=0;i<4&&good;i++ ) good=ref::dist(rd(cp.getPts()[i]),e[i])<t2; c.chkf("rect-corners",good,[&](std::ostream&o){o<<cp<<" expected "; for(auto&k:e)o<<str(k);}); }
	}
	// default object unaffected by another object's cache
	Homogr E; Line2d l0=mk(p)*mk(q); c.chk("identity-line",E*l0==l0);
}

// exact transformations (integer values): the line found equals the line through the transformed points
SECTION(exact_lines,6000)
{
	static const int rot[4][4]={{1,0,0,1},{0,-1,1,0},{-1,0,0,-1},{0,1,-1,0}}; int q=(int)c.rng.i(0,3); LD sx=std::ldexp(1.L,(int)c.rng.i(-2,3))*(c.rng.coin(4)?-1:1), sy=c.rng.coin()?sx:std::ldexp(1.L,(int)c.rng.i(-2,3)), tx=c.rng.i(-9,9), ty=c.rng.i(-9,9), sh=c.rng.coin(3)?c.rng.i(-2,2):0; M3 m=ref::mul(ref::mT(tx,ty),ref::mul(ref::mS(sx,sy),M3{{{(LD)rot[q][0],(LD)rot[q][1],0},{(LD)rot[q][2],(LD)rot[q][3],0},{0,0,1}}})); if( sh!=0 ) m=ref::mul(m,M3{{{1,sh,0},{0,1,0},{0,0,1}}}); c.put(str(m)); Homogr H=hist(c,m); if( projDiff(rdM(H),m)!=0 ) setM(H,m); // a history that rounded
	P p=ipt(c.rng,9), r=ipt(c.rng,9); if( p==r ) { c.skip("same"); return; } inP(c,"p",p); inP(c,"r",r); P a=ref::ap(m,p), b=ref::ap(m,r); Line2d l=H*(mk(p)*mk(r)), e=mk(a)*mk(b); auto x=l.get(), y=e.get(); c.chkf("exact-line",std::fabs(x[0]-y[0])<1e-12&&std::fabs(x[1]-y[1])<1e-12&&std::fabs(x[2]-y[2])<1e-10,[&](std::ostream&o){ o<<l<<" vs "<<e; }); if( std::fabs(x[2]-y[2])<2e-11 ) c.chk("exact-line-equal",l==e&&e==l&&!(l!=e)); std::vector<Line2d> v{mk(p)*mk(r)}; H.applyTo(v); c.chk("exact-line-container",v[0].get()==l.get());
	Segment s(mk(p),mk(r)); c.chk("exact-segment",H*s==Segment(mk(a),mk(b))); c.chk("exact-osegment",H*OSegment(mk(p),mk(r))==OSegment(mk(a),mk(b))); c.chk("exact-segment-line",(H*s).getLine()==e);
}

SECTION(polylines,8000)
{
	M3 m=rndH(c.rng); if( !okM(m) ) { c.skip("ill-conditioned"); return; } c.put(str(m)); Homogr H=hist(c,m);
	int n=gen::num(c.rng,2,9); Poly v; while( (int)v.size()<n ) { P p=pt(c.rng); if( !wOk(m,p) ) { c.skip("horizon"); return; } if( v.empty()||ref::dist(p,v.back())>0.5 ) v.push_back(p); } if( ref::dist(v[0],v.back())<0.5 ) v.pop_back(); if( v.size()<2 ) { c.skip("short"); return; }
	inV(c,"v",v); Poly e; for( auto& p: v ) e.push_back(ref::ap(m,p)); LD tol=tolOf(e);
	auto chk=[&]( const std::string& k, const auto& pl, bool closed ) { bool ok=pl.size()==e.size(); for( size_t i=0;ok&&i<e.size();i++ ) ok=ref::dist(rd(pl.getPts()[i]),e[i])<tol; c.chkf(k,ok,[&](std::ostream&o){o<<pl;}); c.near(k+"-length",pl.length(),ref::perim(e,closed),tol*10*e.size()); };
	OPolyline op(mkv(v)); chk("open",H*op,false); CPolyline cl; bool hasC=v.size()>2; if( hasC ) { cl=CPolyline(mkv(v)); (void)cl.length(); (void)cl.isSimple(); chk("closed",H*cl,true); }
	// containers of everything: element-wise
	std::vector<OPolyline> vo{op,op}; H.applyTo(vo); chk("applyTo-polys",vo[1],false); auto vo2=H*std::vector<OPolyline>{op}; chk("mul-polys",vo2[0],false);
	{ auto pts=mkv(v); auto w=pts; H.applyTo(w); for( size_t i=0;i<e.size();i++ ) nearP(c,"applyTo-pts",w[i],e[i],tol); std::list<Point2d> li(pts.begin(),pts.end()); H.applyTo(li); size_t i=0; for( auto& x: li ) nearP(c,"applyTo-list",x,e[i++],tol); }
	{ Line2d l=op.getSegs()[0].getLine(); std::vector<Line2d> vl{l}; H.applyTo(vl); c.near("applyTo-line",dL(vl[0],e[0]),0,tol*10/std::min((LD)1,ref::dist(e[0],e[1]))); std::array<Line2d,2> al{l,l}; auto al2=H*al; c.chk("array-lines",al2[1].get()==vl[0].get()); }
	{ std::vector<Segment> vs{op.getSegs()[0]}; H.applyTo(vs); c.chk("applyTo-seg",vs[0]==H*op.getSegs()[0]); auto vs2=H*std::vector<Segment>{op.getSegs()[0]}; c.chk("mul-segs",vs2[0]==vs[0]); std::vector<OSegment> os{OSegment(mk(v[1]),mk(v[0]))}; H.applyTo(os); nearP(c,"applyTo-oseg",os[0].getPts().first,e[1],tol); }
	if( hasC ) { std::vector<CPolyline> vc{cl}; H.applyTo(vc); chk("applyTo-cpoly",vc[0],true); }
#ifdef HOMOG2D_ENABLE_VRTP
	{
		std::vector<CommonType> cv{ mk(v[0]), op, Segment(mk(v[0]),mk(v[1])), OSegment(mk(v[1]),mk(v[0])), Circle(mk(v[0]),2) }; if( hasC ) cv.push_back(cl);
		std::vector<CommonType> out; for( auto& x: cv ) out.push_back( transform(H,x) );
		c.chk("var-point",std::holds_alternative<Point2d>(out[0]) && std::get<Point2d>(out[0]).get()==(H*mk(v[0])).get()); c.chk("var-op",std::holds_alternative<OPolyline>(out[1]) && std::get<OPolyline>(out[1])==H*op); c.chk("var-seg",std::holds_alternative<Segment>(out[2]) && std::get<Segment>(out[2])==H*std::get<Segment>(cv[2]));
		c.chk("var-oseg",std::holds_alternative<OSegment>(out[3]) && std::get<OSegment>(out[3])==H*std::get<OSegment>(cv[3])); c.chk("var-circle",std::holds_alternative<Ellipse>(out[4])); if( hasC ) c.chk("var-cp",std::holds_alternative<CPolyline>(out[5]) && std::get<CPolyline>(out[5])==H*cl);
		auto cr=transform(H,Circle(mk(v[0]),2)); (void)cr;
	}
#endif
}

SECTION(conics,10000)
{
	// the horizon must stay away from the curve
	M3 m=rndH(c.rng,true,30); if( !okM(m)||condM(m)>5e3 ) { c.skip("ill-conditioned"); return; } c.put(str(m)); Homogr H=hist(c,m);
	P ce=pt(c.rng,60); LD a=c.rng.d(1,20), b=c.rng.coin(3)?a:(LD)c.rng.d(1,20), th= c.rng.coin(3)?(LD)c.rng.i(-4,4)*ref::PI/4:(LD)c.rng.d(-3.1,3.1); bool circle=c.rng.coin(); if( circle ) b=a; inP(c,"ce",ce); c.in("ab",a,b,th,circle); LD ca=a,cb=b; if( a<b ) std::swap(a,b); // the constructor takes the two half-lengths in any order, the angle is that of the longest
	Poly q,qi,qo; for( int i=0;i<24;i++ ) { LD t=2*ref::PI*i/24; P u{a*cosl(t),b*sinl(t)}; P p=ce+ref::rot(u,th); if( std::fabs(ref::apw(m,p))<0.4 || std::fabs(ref::apw(m,ce))<0.4 ) { c.skip("horizon"); return; } q.push_back(ref::ap(m,p)); qi.push_back(ref::ap(m,ce+0.98L*ref::rot(u,th))); qo.push_back(ref::ap(m,ce+1.02L*ref::rot(u,th))); }
	auto judge=[&]( const std::string& k, const Ellipse& e ) {
		LD worst=0; for( auto& p: q ) worst=std::max(worst,ellErr(e,p)); auto mm=e.getMajMin();
		c.near(k+"-through",worst,0,2e-5); c.chk(k+"-maj>=min",mm.first>=mm.second-1e-9);
		bool in=true,out=true; for( auto& p: qi ) in=in&&e.pointIsInside(mk(p))&&mk(p).isInside(e); for( auto& p: qo ) out=out&&!e.pointIsInside(mk(p)); c.chk(k+"-inside",in); c.chk(k+"-outside",out);
	};
	if( circle ) { Circle k(mk(ce),(NT)a); Ellipse e=H*k; judge("circle",e); c.chk("circle-kept",rd(k.center())==rd(mk(ce))&&k.radius()==(NT)a); }
	Ellipse e0(mk(ce),(NT)ca,(NT)cb,(NT)th); Ellipse e=H*e0; judge("ellipse",e);
	std::vector<Ellipse> ve{e0}; H.applyTo(ve); judge("applyTo",ve[0]); auto vm=H*std::vector<Ellipse>{e0,e0}; judge("mul",vm[1]);
	// and back
	Homogr I=H; I.inverse(); Ellipse back=I*e; LD worst=0; for( int i=0;i<24;i++ ) { LD t=2*ref::PI*i/24; worst=std::max(worst,ellErr(back,ce+ref::rot(P{a*cosl(t),b*sinl(t)},th))); } c.near("round-trip",worst,0,1e-4);
}
MON_MAIN
