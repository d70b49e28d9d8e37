#include "h2.hpp"
using namespace gen;

template<typename S> static P f1( const S& s ) { return rd(s.getPts().first); }
template<typename S> static P f2( const S& s ) { return rd(s.getPts().second); }
static bool same( P a, P b, LD tol ) { return ref::dist(a,b)<=tol; }
template<typename S> static bool segIs( const S& s, P a, P b, LD tol ) { return same(f1(s),a,tol)&&same(f2(s),b,tol); }
template<typename S> static bool segIsU( const S& s, P a, P b, LD tol ) { return segIs(s,a,b,tol)||segIs(s,b,a,tol); }
#define SEGCHK(key,cond,s) c.chkf(key,cond,[&](std::ostream&o){o<<s;})

struct AB { P a,b,d; LD len; };
static AB ab( mon::Case& c )
{
	AB s; s.a=pt(c.rng); s.b=ptFar(c.rng,s.a,0.5); if( c.rng.coin(10) ) { s.b=s.a+(LD)c.rng.d(0.5,2)*ref::rot(P{1,0},c.rng.d(0,6.28)); s.b={(LD)(double)s.b.x,(LD)(double)s.b.y}; if(ref::dist(s.a,s.b)<0.4) s.b=s.a+P{1,1}; }
	inP(c,"a",s.a); inP(c,"b",s.b); s.d=s.b-s.a; s.len=ref::norm(s.d); s.d=(1/s.len)*s.d; return s;
}

SECTION(basics,12000)
{
	auto s=ab(c); P lo=std::min(s.a,s.b), hi=std::max(s.a,s.b); Point2d A=mk(s.a),B=mk(s.b);
	std::vector<std::pair<std::string,Segment>> us; std::vector<std::pair<std::string,OSegment>> os;
	NT ax=(NT)s.a.x,ay=(NT)s.a.y,bx=(NT)s.b.x,by=(NT)s.b.y;
	us.push_back({"pts",Segment(A,B)}); us.push_back({"rev",Segment(B,A)}); us.push_back({"xy",Segment(ax,ay,bx,by)}); us.push_back({"pair",Segment(std::make_pair(B,A))});
	os.push_back({"pts",OSegment(A,B)}); os.push_back({"xy",OSegment(ax,ay,bx,by)}); os.push_back({"pair",OSegment(std::make_pair(A,B))});
	{ Segment x; x.set(B,A); us.push_back({"set",x}); } { Segment x(9,8,7,6); x.set(std::make_pair(A,B)); us.push_back({"setpair",x}); } { Segment x; x.set(bx,by,ax,ay); us.push_back({"setxy",x}); }
	{ OSegment x; x.set(A,B); os.push_back({"set",x}); } { OSegment x(9,8,7,6); x.set(std::make_pair(A,B)); os.push_back({"setpair",x}); } { OSegment x; x.set(ax,ay,bx,by); os.push_back({"setxy",x}); }
	{ Segment x=us[0].second; us.push_back({"copy",x}); } { OSegment x=os[0].second; os.push_back({"copy",x}); } { Segment x; x=us[1].second; us.push_back({"assign",x}); }
	{ Segment x( os[0].second ); us.push_back({"from-oseg",x}); } { OSegment r(B,A); Segment x(r); us.push_back({"from-oseg-rev",x}); Segment y; y=Segment(r); us.push_back({"assign-from-oseg",y}); }
	{ OSegment r(B,A); r=-r; os.push_back({"neg",r}); } { OSegment r(A,B); r=-r; r=-r; os.push_back({"negneg",r}); }
	{ NT k=-4; Point2d Ah(ax*k,ay*k,k); us.push_back({"homog",Segment(B,Ah)}); os.push_back({"homog",OSegment(Ah,B)}); }
	for( auto& p: us ) { auto& u=p.second; SEGCHK("seg-canon/"+p.first,segIs(u,lo,hi,0),u); c.near("seg-length",u.length(),s.len,1e-11*(1+s.len)); c.chk("seg-eq/"+p.first,u==us[0].second && us[1].second==u && !(u!=us[0].second)); c.chk("size",u.size()==2 && u.area()==0); }
	for( auto& p: os ) { auto& u=p.second; SEGCHK("oseg-keeps/"+p.first,segIs(u,s.a,s.b,0),u); c.near("oseg-length",u.length(),s.len,1e-11*(1+s.len)); c.chk("oseg-eq/"+p.first,u==os[0].second && !(u!=os[0].second)); }
	c.near("len-free",length(us[0].second),s.len,1e-11*(1+s.len));
	OSegment r(B,A); c.chk("oseg-rev-differs",!(r==os[0].second) && r!=os[0].second);
	auto ve=os[0].second.getVector(); c.near("vec-x",ve.first,s.b.x-s.a.x,1e-12*200); c.near("vec-y",ve.second,s.b.y-s.a.y,1e-12*200);
	auto pf=getPts(us[0].second); c.chk("getPts-free",rd(pf.first)==lo && rd(pf.second)==hi);
	P t=pt(c.rng); if( ref::dist(t,s.a)>1e-6 && ref::dist(t,s.b)>1e-6 ) { c.chk("other-differs",Segment(A,mk(t))!=us[0].second && !(Segment(mk(t),B)==us[0].second)); c.chk("oother-differs",OSegment(A,mk(t))!=os[0].second); }
	c.throws("null",[&]{ Segment x(A,A); }); c.throws("null-o",[&]{ OSegment x(B,B); }); c.throws("null-xy",[&]{ Segment x(ax,ay,ax,ay); });
	{ Segment x=us[0].second; c.throws("null-set",[&]{ x.set(A,A); }); c.chk("null-set-keeps",x==us[0].second); OSegment y=os[0].second; c.throws("null-oset",[&]{ y.set(ax,ay,ax,ay); }); c.chk("null-oset-keeps",y==os[0].second); }
	Segment d; c.chk("default",segIs(d,P{0,0},P{1,1},0)); OSegment e; c.chk("odefault",segIs(e,P{0,0},P{1,1},0));
	(void)hi;
}

SECTION(derived,12000)
{
	auto s=ab(c); Segment u(mk(s.a),mk(s.b)); OSegment o(mk(s.a),mk(s.b)); LD tol=1e-10*(100+s.len); P m=ref::mid(s.a,s.b);
	nearP(c,"center",u.getCenter(),m,1e-12*200); nearP(c,"ocenter",o.getCenter(),m,1e-12*200); nearP(c,"center-free",getCenter(u),m,1e-12*200);
	for( auto& l: { Line2d(u.getLine()),Line2d(o.getLine()),Line2d(getLine(u)) } ) { c.near("line-a",dL(l,s.a),0,tol); c.near("line-b",dL(l,s.b),0,tol); }
	for( auto& l: { Line2d(u.getBisector()),Line2d(o.getBisector()),Line2d(getBisector(u)) } ) { c.near("bis-mid",dL(l,m),0,tol); c.near("bis-dir",ref::dot(dirL(l),s.d),0,1e-9); c.near("bis-eq",dL(l,s.a)-dL(l,s.b),0,tol); }
	auto h=u.split(), hf=split(u); P lo=std::min(s.a,s.b),hi=std::max(s.a,s.b);
	c.chk("half1",segIs(h.first,lo,m,tol)); c.chk("half2",segIs(h.second,m,hi,tol)); c.chk("half-free",hf.first==h.first&&hf.second==h.second);
	auto ho=o.split(), hof=split(o); c.chk("ohalf1",segIs(ho.first,s.a,m,tol),str(ho.first)); c.chk("ohalf2",segIs(ho.second,m,s.b,tol)); c.chk("ohalf-free",hof.first==ho.first&&hof.second==ho.second);
	// extended
	P e1=s.a-s.len*s.d, e2=s.b+s.len*s.d; LD t2=1e-8*(100+s.len);
	auto x=u.getExtended(), xf=getExtended(u); SEGCHK("ext",segIsU(x,e1,e2,t2),x); c.chk("ext-free",x==xf); c.near("ext-len",x.length(),3*s.len,t2); SEGCHK("ext-order",f1(x)<f2(x),x);
	auto xo=o.getExtended(); SEGCHK("oext",segIs(xo,e1,e2,t2),xo);
	// parallel segments
	LD d=c.rng.coin(3)?(LD)c.rng.i(1,30):(LD)c.rng.d(0.05,60); c.in("d",d); P n{-s.d.y,s.d.x};
	auto ps=u.getParallelSegs((NT)d), psf=getParallelSegs(u,(NT)d); bool o1=segIsU(ps.first,s.a+d*n,s.b+d*n,t2)&&segIsU(ps.second,s.a-d*n,s.b-d*n,t2), o2=segIsU(ps.first,s.a-d*n,s.b-d*n,t2)&&segIsU(ps.second,s.a+d*n,s.b+d*n,t2);
	c.chkf("parallel",o1||o2,[&](std::ostream&o){o<<ps.first<<" "<<ps.second;}); c.chk("parallel-free",(psf.first==ps.first&&psf.second==ps.second));
	auto po=o.getParallelSegs((NT)d); SEGCHK("oparallel-left",segIs(po.first,s.a+d*n,s.b+d*n,t2),po.first); SEGCHK("oparallel-right",segIs(po.second,s.a-d*n,s.b-d*n,t2),po.second);
	c.chk("left-is-left",o.getPointSide(po.first.getCenter())==PointSide::Left && o.getPointSide(po.second.getCenter())==PointSide::Right);
	c.throws("parallel-0",[&]{ u.getParallelSegs(0); }); c.throws("parallel-neg",[&]{ o.getParallelSegs(-(NT)d); });
	// orthogonal points / segments
	Poly ex{ s.a+s.len*n, s.a-s.len*n, s.b+s.len*n, s.b-s.len*n };
	auto chk4=[&]( const std::string& k, const auto& pts ) { bool used[4]={}; int ok=0; for( auto& q: pts ) for( int i=0;i<4;i++ ) if( !used[i] && same(rd(q),ex[i],t2) ) { used[i]=true; ok++; break; } c.chkf(k,ok==4,[&](std::ostream&o){ for( auto& q: pts ) o<<q<<" "; }); };
	chk4("orth-pts",u.getOrthogPts()); chk4("orth-opts",o.getOrthogPts()); chk4("orth-free",getOrthogPts(u));
	auto os=u.getOrthogSegs(), oo=o.getOrthogSegs(), of=getOrthogSegs(u); 
	for( auto* arr: { &os,&oo,&of } ) { bool used[4]={}; int ok=0; for( auto& g: *arr ) for( int i=0;i<4;i++ ) if( !used[i] && segIsU(g,i<2?s.a:s.b,ex[i],t2) ) { used[i]=true; ok++; break; } c.eq("orth-segs",ok,4); }
	// containers
	std::vector<Segment> vs{u,Segment(mk(s.a+P{1,2}),mk(s.b+P{1,2}))}; auto ce=getCenters(vs); auto li=getLines(vs); c.chk("containers",ce.size()==2&&li.size()==2&&rd(ce[0])==rd(u.getCenter())&&li[0]==u.getLine()&&li[1]==vs[1].getLine());
}

SECTION(oriented,12000)
{
	auto s=ab(c); OSegment o(mk(s.a),mk(s.b)); LD d=c.rng.coin(4)?(LD)c.rng.i(0,60):(LD)c.rng.d(0,2)*s.len; c.in("d",d); LD tol=1e-9*(100+s.len+d);
	if( dL(o.getLine(),s.a)<5e-11 )
	{
		nearP(c,"getPointAt",o.getPointAt((NT)d),s.a+d*s.d,tol);
		if( d>1e-6 && d<s.len-1e-6 )
		{
			auto h=o.split((NT)d), hf=split(o,(NT)d); P m=s.a+d*s.d; SEGCHK("split1",segIs(h.first,s.a,m,tol),h.first); SEGCHK("split2",segIs(h.second,m,s.b,tol),h.second); c.chk("split-free",h.first==hf.first&&h.second==hf.second);
			c.near("split-len",h.first.length()+h.second.length(),s.len,tol);
		}
		if( d>=s.len+1e-6 ) c.throws("split-far",[&]{ o.split((NT)d); });
	}
	c.throws("at-neg",[&]{ o.getPointAt((NT)-0.5); }); c.throws("split-0",[&]{ o.split(0.); }); c.throws("split-neg",[&]{ o.split((NT)-d-1); }); c.throws("split-len",[&]{ o.split(o.length()); });
	// side
	P t=pt(c.rng); inP(c,"t",t); LD cr=ref::crs(s.a,s.b,t)/s.len;
	if( std::fabs(cr)>1e-6 )
	{
		auto sd=o.getPointSide(mk(t)); c.eq("side",getString(sd),getString(cr>0?PointSide::Left:PointSide::Right));
		OSegment r(mk(s.b),mk(s.a)); c.chk("side-rev",r.getPointSide(mk(t))!=sd && r.getPointSide(mk(t))!=PointSide::Neither);
	}
	c.chk("side-ends",o.getPointSide(mk(s.a))==PointSide::Neither && o.getPointSide(mk(s.b))==PointSide::Neither);
	{ P a=ipt(c.rng,20),dd=ipt(c.rng,9); if( dd.x!=0||dd.y!=0 ) { OSegment q(mk(a),mk(a+dd)); LD k=c.rng.i(-5,5); c.chk("side-on-line",q.getPointSide(mk(a+k*dd))==PointSide::Neither,str(q)); } }
	// signed angle
	auto s2=ab(c); OSegment o2(mk(s2.a),mk(s2.b)); LD ex=atan2l(ref::crs(s.d,s2.d),ref::dot(s.d,s2.d)); LD g=o.getAngle(o2);
	if( std::fabs(std::fabs(ex)-ref::PI)>1e-6 ) { c.near("angle",g,ex,1e-10); c.near("angle-anti",o2.getAngle(o),-ex,1e-10); c.near("angle-free",getAngle(o,o2),ex,1e-10); } else c.near("angle-pi",std::fabs(g),ref::PI,1e-5);
	c.chk("angle-range",std::fabs(g)<=ref::PI+1e-12);
	Segment u(mk(s.a),mk(s.b)); LD a2=std::min(std::fabs(ex),ref::PI-std::fabs(ex)); LD at=a2<0.02?1e-7:1e-9; c.near("unoriented-angle",u.getAngle(o2),a2,at); c.near("unoriented-angle2",o2.getAngle(u),a2,at); c.near("line-angle",o.getAngle(o2.getLine()),a2,at);
}

SECTION(distance,20000)
{
	auto s=ab(c); bool ori=c.rng.coin(); P t;
	switch( c.rng.i(0,5) ) { case 0: t=pt(c.rng); break; case 5: t=s.a+(LD)((c.rng.coin()?1:-1)*std::exp(c.rng.d(0,9)))*(c.rng.coin()?s.len:(LD)1)*s.d+(LD)c.rng.d(-20,20)*P{-s.d.y,s.d.x}; break; case 1: t=s.a+(LD)c.rng.d(-2,3)*s.len*s.d; break; case 2: t=s.a+(LD)c.rng.d(-1,2)*s.len*s.d+(LD)c.rng.d(-20,20)*P{-s.d.y,s.d.x}; break; case 3: t=c.rng.coin()?s.a:s.b; break; default: t=s.a+(LD)c.rng.d(0,1)*s.len*s.d+(LD)c.rng.d(-0.01,0.01)*P{-s.d.y,s.d.x}; }
	t={(LD)(double)t.x,(LD)(double)t.y}; inP(c,"t",t); c.in("oriented",ori);
	LD ex=ref::dSeg(t,s.a,s.b), k=ref::projT(t,s.a,s.b); LD tol=1e-10*(100+s.len)+1e-12L*ex;
	auto go=[&]( const auto& g, P p1, P p2 ) {
		int cs=77; c.near("dist",g.distTo(mk(t),&cs),ex,tol); c.near("dist-nocase",g.distTo(mk(t)),ex,tol);
		LD kk=ref::projT(t,p1,p2); if( std::fabs(kk)>1e-9 && std::fabs(kk-1)>1e-9 ) { int e= kk<0?-1:(kk>1?1:0); c.eq("case",cs,e); c.cls("case"+std::to_string(e)); } else c.chk("case-range",cs>=-1&&cs<=1);
	};
	c.near("dist-from-pt",mk(t).distTo(Segment(mk(s.a),mk(s.b))),ex,tol);
	if( ori ) go( OSegment(mk(s.a),mk(s.b)), s.a, s.b ); else go( Segment(mk(s.a),mk(s.b)), std::min(s.a,s.b), std::max(s.a,s.b) );
	(void)k;
}
MON_MAIN
