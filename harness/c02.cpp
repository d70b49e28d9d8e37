#include "h2.hpp"
using namespace gen;

// a line through two random points, sometimes axis-parallel, nearly axis-parallel or diagonal
struct Ln { P p,q,d; LD len; };
static Ln ln( mon::Case& c, double minlen=1, const char* n="" )
{
	Ln l; l.p=pt(c.rng); l.q=ptFar(c.rng,l.p,minlen);
	if( c.rng.coin(12) ) { l.q=l.p+P{(LD)c.rng.d(1,50),(LD)std::ldexp(c.rng.d(-1,1),-(int)c.rng.i(8,40))}; if( c.rng.coin() ) l.q=P{l.p.x+(l.q.y-l.p.y),l.p.y+(l.q.x-l.p.x)}; l.q={(LD)(double)l.q.x,(LD)(double)l.q.y}; }
	if( ref::dist(l.p,l.q)<minlen ) l.q=l.p+P{minlen,minlen};
	inP(c,(std::string("p")+n).c_str(),l.p); inP(c,(std::string("q")+n).c_str(),l.q);
	l.d=l.q-l.p; l.len=ref::norm(l.d); l.d=(1/l.len)*l.d; return l;
}
static LD acute( P a, P b ) { LD s=std::fabs(ref::crs(a,b)),k=std::fabs(ref::dot(a,b)); return atan2l(s,k); }

SECTION(coords,12000)
{
	auto L=ln(c); Line2d l=mk(L.p)*mk(L.q);
	LD v=co(c.rng); c.in("v",v);
	if( std::fabs(L.d.x)>1e-6 )
	{
		LD y=L.p.y+(v-L.p.x)*L.d.y/L.d.x; LD tol=1e-10*(1+std::fabs(y)+200)/std::fabs(L.d.x);
		c.near("coordX",l.getCoord(GivenCoord::X,(NT)v),y,tol);
		Point2d g=l.getPoint(GivenCoord::X,(NT)v); nearP(c,"pointX",g,P{v,y},tol); c.near("pointX-on",dL(l,rd(g)),0,1e-10*(1+std::fabs(y)));
		auto o=l.getOrthogLine(GivenCoord::X,(NT)v); c.near("orthX-pt",dL(o,rd(g)),0,1e-9*(1+std::fabs(y))); c.near("orthX-dir",ref::dot(dirL(o),L.d),0,1e-9);
	}
	if( std::fabs(L.d.y)>1e-6 )
	{
		LD x=L.p.x+(v-L.p.y)*L.d.x/L.d.y; LD tol=1e-10*(1+std::fabs(x)+200)/std::fabs(L.d.y);
		c.near("coordY",l.getCoord(GivenCoord::Y,(NT)v),x,tol);
		Point2d g=l.getPoint(GivenCoord::Y,(NT)v); nearP(c,"pointY",g,P{x,v},tol); c.near("pointY-on",dL(l,rd(g)),0,1e-10*(1+std::fabs(x)));
		auto o=l.getOrthogLine(GivenCoord::Y,(NT)v); c.near("orthY-pt",dL(o,rd(g)),0,1e-9*(1+std::fabs(x))); c.near("orthY-dir",ref::dot(dirL(o),L.d),0,1e-9);
	}
	// axis parallel: no answer for the impossible coordinate
	Line2d h(LineDir::H,(NT)v), w(LineDir::V,(NT)v);
	c.throws("coordY-of-H",[&]{ h.getCoord(GivenCoord::Y,(NT)1); }); c.throws("coordX-of-V",[&]{ w.getCoord(GivenCoord::X,(NT)1); });
	c.throws("pointY-of-H",[&]{ h.getPoint(GivenCoord::Y,(NT)v); }); c.throws("pointX-of-V",[&]{ w.getPoint(GivenCoord::X,(NT)v); });
	c.throws("pointsX-of-V",[&]{ w.getPoints(GivenCoord::X,(NT)v,2); }); c.throws("orthX-of-V",[&]{ w.getOrthogLine(GivenCoord::X,(NT)v); });
	c.near("coordX-of-H",h.getCoord(GivenCoord::X,(NT)17),v,1e-11); c.near("coordY-of-V",w.getCoord(GivenCoord::Y,(NT)-3),v,1e-11);
	if( L.p.y==L.q.y ) c.throws("coordY-of-H2",[&]{ l.getCoord(GivenCoord::Y,(NT)1); });
	if( L.p.x==L.q.x ) c.throws("coordX-of-V2",[&]{ l.getCoord(GivenCoord::X,(NT)1); });
	// int argument
	int iv=(int)c.rng.i(-50,50); if( std::fabs(L.d.x)>0.01 ) c.near("coordX-int",l.getCoord(GivenCoord::X,iv),L.p.y+(iv-L.p.x)*L.d.y/L.d.x,1e-8*(1+std::fabs((iv-L.p.x)/L.d.x)));
}

static void pairCheck( mon::Case& c, const std::string& k, const PointPair_<NT>& pp, P base, P d, LD dist )
{
	P a=base+dist*d, b=base-dist*d; if( b<a ) std::swap(a,b);
	LD tol=1e-9*(1+dist+ref::norm(base));
	bool amb = std::fabs(a.x-b.x)<1e-8; // order decided by rounding, unless the x are strictly equal
	if( amb && a.x!=b.x ) { LD u=std::min( ref::dist(rd(pp.first),a)+ref::dist(rd(pp.second),b), ref::dist(rd(pp.first),b)+ref::dist(rd(pp.second),a) ); c.near(k+"-set",u,0,2*tol); }
	else { nearP(c,k+"-first",pp.first,a,tol); nearP(c,k+"-second",pp.second,b,tol); }
	P f=rd(pp.first),s=rd(pp.second); c.chkf(k+"-order", f<s, [&](std::ostream&o){ o<<pp.first<<pp.second; });
	c.near(k+"-eqdist",ref::dist(f,base)-ref::dist(s,base),0,tol);
}

SECTION(points_at_dist,12000)
{
	auto L=ln(c); Line2d l=mk(L.p)*mk(L.q); LD dist=c.rng.coin(3)?(LD)c.rng.i(1,50):(LD)c.rng.d(0.01,200); c.in("dist",dist);
	if( dL(l,L.p)<5e-11 ) pairCheck(c,"pt",l.getPoints(mk(L.p),(NT)dist),L.p,L.d,dist);
	if( dL(l,L.q)<5e-11 ) pairCheck(c,"pt2",l.getPoints(mk(L.q),(NT)dist),L.q,L.d,dist);
	if( std::fabs(L.d.x)>0.01 ) { LD v=co(c.rng); P b{v,L.p.y+(v-L.p.x)*L.d.y/L.d.x}; pairCheck(c,"X",l.getPoints(GivenCoord::X,(NT)v,(NT)dist),b,L.d,dist); }
	if( std::fabs(L.d.y)>0.01 ) { LD v=co(c.rng); P b{L.p.x+(v-L.p.y)*L.d.x/L.d.y,v}; pairCheck(c,"Y",l.getPoints(GivenCoord::Y,(NT)v,(NT)dist),b,L.d,dist); }
	P o=L.p+(LD)(c.rng.d(0.001,5)*(c.rng.coin()?1:-1))*P{-L.d.y,L.d.x};
	c.throws("off-line",[&]{ l.getPoints(mk(o),(NT)dist); });
	c.throws("rotate-off-line",[&]{ l.getRotatedLine(mk(o),(NT)0.5); });
}

SECTION(orthog,12000)
{
	auto L=ln(c); Line2d l=mk(L.p)*mk(L.q); P t=pt(c.rng); inP(c,"t",t);
	LD D=ref::dLine(t,L.p,L.q); P pr=ref::proj(t,L.p,L.q); LD tol=1e-9*(1+ref::norm(t)+ref::norm(pr));
	auto o=l.getOrthogLine(mk(t)); c.near("line-pt",dL(o,t),0,tol); c.near("line-proj",dL(o,pr),0,tol*10); c.near("line-dir",ref::dot(dirL(o),L.d),0,1e-9);
	c.near("angle-90",l.getAngle(o),ref::PI/2,1e-9); c.near("angle-90b",getAngle(o,l),ref::PI/2,1e-9);
	c.near("distTo",l.distTo(mk(t)),D,5e-8); c.near("distTo-pt",mk(t).distTo(l),D,5e-8);
	if( D>1e-6 )
	{
		OSegment s=l.getOrthogSegment(mk(t)); auto pp=s.getPts();
		nearP(c,"seg-first-proj",pp.first,pr,tol*10); nearP(c,"seg-second-pt",pp.second,t,1e-12*(1+ref::norm(t)));
		c.near("seg-len",s.length(),D,tol*10); c.near("seg-on",dL(l,rd(pp.first)),0,tol*10);
	}
	if( dL(l,L.p)<1e-11 ) c.throws("seg-on-line",[&]{ l.getOrthogSegment(mk(L.p)); });
	c.eq("side-on-H",side(Point2d((NT)t.y,(NT)t.x),Line2d(LineDir::H,(NT)t.x)),0); c.eq("side-on-V",side(mk(t),Line2d(LineDir::V,(NT)t.x)),0);
	// side of a point: antisymmetric about the line, constant on a side
	if( D>1e-3 )
	{
		P m=t+2*(pr-t); P same=t+(LD)c.rng.d(-50,50)*L.d+(LD)c.rng.d(0,20)*(1/D)*(t-pr);
		c.chk("side-opp",side(mk(t),l)!=side(mk(m),l)); c.chk("side-same",side(mk(t),l)==side(mk(same),l));
		auto a=l.get(); LD val=a[0]*t.x+a[1]*t.y+a[2]; c.eq("side-sign",side(mk(t),l),val>0?1:-1);
	}
}

SECTION(parallel,10000)
{
	auto L=ln(c); Line2d l=mk(L.p)*mk(L.q); P t=pt(c.rng); LD d=c.rng.coin(3)?(LD)c.rng.i(1,40):(LD)c.rng.d(0.01,100); inP(c,"t",t); c.in("d",d);
	P n{-L.d.y,L.d.x};
	auto pl=l.getParallelLine(mk(t)); c.near("at-pt",dL(pl,t),0,1e-9); c.near("at-dir",ref::crs(dirL(pl),L.d),0,1e-9); c.chk("isParallel",pl.isParallelTo(l)&&l.isParallelTo(pl)&&areParallel(pl,l));
	LD D=ref::dLine(t,L.p,L.q);
	c.near("dist-from",getParallelDistance(l,pl),D,1e-8); c.near("dist-from-sym",getParallelDistance(pl,l),D,1e-8);
	// same line rebuilt from its own points may end up with other coefficients
	P u=t+L.len*L.d, v=t-(LD)c.rng.d(1,3)*L.len*L.d; u={(LD)(double)u.x,(LD)(double)u.y}; v={(LD)(double)v.x,(LD)(double)v.y};
	Line2d pl2=mk(v)*mk(u); LD sl=1e-7;
	c.near("dist-rebuilt",getParallelDistance(l,pl2),D,sl*(1+D)); c.near("dist-rebuilt-sym",getParallelDistance(pl2,l),D,sl*(1+D));
	auto pp=l.getParallelLines((NT)d); auto pf=getParallelLines(l,(NT)d);
	for( auto& k: { pp.first,pp.second,pf.first,pf.second } ) { c.near("pair-dir",ref::crs(dirL(k),L.d),0,1e-9); c.near("pair-dist",getParallelDistance(k,l),d,1e-9*(1+d)); c.near("pair-dist-p",dL(k,L.p),d,1e-9*(1+d)); }
	c.near("pair-apart",getParallelDistance(pp.first,pp.second),2*d,1e-8*(1+d));
	c.chk("pair-two-sides",(dL(pp.first,L.p+d*n)<1e-6)!=(dL(pp.second,L.p+d*n)<1e-6));
	Line2d o=l.getOrthogLine(mk(t)); c.throws("not-parallel",[&]{ getParallelDistance(l,o); });
	// almost parallel lines on both sides of the vertical/horizontal
	LD e=std::ldexp((LD)c.rng.d(0.5,1),-(int)c.rng.i(11,45)); bool vert=c.rng.coin(); c.in("e",e,vert); LD off=c.rng.d(0.1,1); bool opp=c.rng.coin();
	auto xy=[&]( LD a, LD b ) { return vert? Point2d((NT)b,(NT)a):Point2d((NT)a,(NT)b); };
	Line2d a=xy(-1,-e/2)*xy(1,e/2), b=opp? xy(-1,off+e/2)*xy(1,off-e/2) : xy(-1,off-e/2)*xy(1,off+e/2);
	c.near("tiny-slope",getParallelDistance(a,b),off,3*e+1e-9);
}

SECTION(rotated,10000)
{
	auto L=ln(c); Line2d l=mk(L.p)*mk(L.q); LD th=c.rng.coin(3)?(LD)c.rng.i(-8,8)*ref::PI/8:(LD)c.rng.d(-7,7); c.in("th",th);
	if( dL(l,L.p)>5e-11 ) { c.skip("rounding"); return; }
	auto r=l.getRotatedLine(mk(L.p),(NT)th); P ed=ref::rot(L.d,th);
	c.near("through",dL(r,L.p),0,1e-8); c.near("dir",ref::crs(dirL(r),ed),0,1e-9); c.near("far-point",dL(r,L.p+50*ed),0,1e-7);
	LD ex=acute(ed,L.d); c.near("angle",l.getAngle(r),ex,ex<0.01?1e-7:1e-8); c.near("angle-sym",r.getAngle(l),ex,ex<0.01?1e-7:1e-8);
}

SECTION(angles,12000)
{
	auto L=ln(c), M=ln(c,1,"2"); Line2d l=mk(L.p)*mk(L.q), m=mk(M.p)*mk(M.q);
	LD ex=acute(L.d,M.d); LD tol= ex<0.02?5e-8:1e-9; if( ex<1e-6 ) tol=5e-8;
	LD a=l.getAngle(m); c.near("line-line",a,ex,tol); c.near("sym",m.getAngle(l),ex,tol); c.near("free",getAngle(l,m),ex,tol);
	c.chk("range",a>=0 && a<=ref::PI/2+1e-12);
	c.near("self",l.getAngle(l),0,5e-8);
	Segment s(mk(L.p),mk(L.q)), s2(mk(M.q),mk(M.p)); OSegment o(mk(L.p),mk(L.q)); 
	c.near("seg-line",getAngle(s,m),ex,tol); c.near("line-seg",getAngle(m,s),ex,tol); c.near("seg-seg",getAngle(s,s2),ex,tol); c.near("line-oseg",m.getAngle(o),ex,tol);
	if( std::fabs(ex-0.001)>1e-5 ) { bool par=ex<0.001; c.eq("isParallel",l.isParallelTo(m),par); c.eq("isParallel-seg",l.isParallelTo(s2),par); c.eq("areParallel-seg",areParallel(s,s2),par); c.eq("seg-isParallel-line",s.isParallelTo(m),par); c.eq("areParallel-mix",areParallel(m,s),par); c.eq("oseg",areParallel(o,m),par); }
}

SECTION(collinear,8000)
{
	auto L=ln(c,2); LD t=c.rng.d(-3,3); P on=L.p+t*L.len*L.d; on={(LD)(double)on.x,(LD)(double)on.y};
	c.in("t",t);
	// offset from the line through the farthest pair must be below 1e-14 only; use axis directions for a guaranteed exact answer
	Poly ax; { LD y=co(c.rng); for(int i=0;i<3;i++) ax.push_back( c.rng.coin()?P{co(c.rng)+(LD)i*300,y}:P{(LD)(i*7),y} ); if( c.rng.coin() ) for( auto& p: ax ) std::swap(p.x,p.y); c.rng.shuffle(ax); }
	if( ref::dist(ax[0],ax[1])>0.1 && ref::dist(ax[0],ax[2])>0.1 && ref::dist(ax[1],ax[2])>0.1 ) c.chk("axis",areCollinear(mk(ax[0]),mk(ax[1]),mk(ax[2])),str(ax[0])+str(ax[1])+str(ax[2]));
	P off=L.p+t*L.len*L.d+(LD)c.rng.d(0.01,10)*(c.rng.coin()?1:-1)*P{-L.d.y,L.d.x}; Poly z{L.p,L.q,off}; c.rng.shuffle(z);
	c.chk("off",!areCollinear(mk(z[0]),mk(z[1]),mk(z[2])));
}
// three points on a line, known up to roundings: two of them much closer to each other than to the third one
SECTION(collinear_uneven,4000)
{
	auto L=ln(c,3); LD k=(LD)std::exp(c.rng.d(-8,0)), t=(c.rng.coin()?1:-1)*c.rng.d(5,60); auto r=[]( P a ) { return P{(LD)(double)a.x,(LD)(double)a.y}; }; Poly z{r(L.p),r(L.p+k*L.d),r(L.p+t*L.d)}; c.in("k",k,t); Poly z0=z; int n=0,yes=0;
	LD far=std::fabs(ref::crs(z[0],z[2],z[1]))/ref::dist(z[0],z[2]); LD big=0; for( auto& p: z ) big=std::max(big,ref::norm(p)); if( big>500||far>1e-12L ) { c.skip("roundings"); return; }
	std::sort(z.begin(),z.end(),[]( P a, P b ) { return a.x!=b.x?a.x<b.x:a.y<b.y; }); do { n++; yes+=areCollinear(mk(z[0]),mk(z[1]),mk(z[2])); } while( std::next_permutation(z.begin(),z.end(),[]( P a, P b ) { return a.x!=b.x?a.x<b.x:a.y<b.y; }) ); c.chkf("any-order",yes==n,[&]( std::ostream& o ) { o<<yes<<" of "<<n; });
}
MON_MAIN
