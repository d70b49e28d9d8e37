#include "h2.hpp"
#include <list>
#include <array>
using namespace gen;
using ref::Cir;
// brute force on large sets is cubic: hull first (exact or not, the extreme points are what matters)
static Cir refMec( const Poly& v ) { if( v.size()<=9 ) return ref::mec(v); Poly h=ref::hull(v); if( h.size()<2 ) return ref::mec(v); return ref::mec(h); }
static Poly cloud( mon::Case& c, int& kind )
{
	Poly v; int n=(int)c.rng.i(2,c.rng.coin(5)?80:9); kind=(int)c.rng.i(0,9); int R=(int)c.rng.i(1,30);
	switch( kind )
	{
		case 0: for( int i=0;i<n;i++ ) v.push_back(ipt(c.rng,R)); break;
		case 1: for( int i=0;i<n;i++ ) v.push_back({c.rng.d(-50,50),c.rng.d(-50,50)}); break;
		case 2: { P o{c.rng.d(-20,20),c.rng.d(-20,20)}; LD r=c.rng.d(1,20); for( int i=0;i<n;i++ ) v.push_back(o+r*P{cosl(c.rng.d(0,6.3)),0}+P{0,0}); for( auto&p:v ) { LD a=c.rng.d(0,6.283); p=o+r*P{cosl(a),sinl(a)}; } break; } // cocircular
		case 3: { P a=ipt(c.rng,R),d=ipt(c.rng,3); if( d==P{0,0} ) d={1,2}; for( int i=0;i<n;i++ ) v.push_back(a+(LD)c.rng.i(-9,9)*d); break; } // aligned
		case 4: { Poly f; for( int i=0;i<3;i++ ) f.push_back(ipt(c.rng,R)); for( int i=0;i<n;i++ ) v.push_back(c.rng.pick(f)); break; } // duplicates
		case 5: { int w=(int)c.rng.i(1,4),h=(int)c.rng.i(1,4); P o=ipt(c.rng,9); for( int x=0;x<=w;x++ ) for( int y=0;y<=h;y++ ) v.push_back(o+P{(LD)x,(LD)y}); break; } // grid, 4 cocircular corners
		case 6: { P a{c.rng.d(-20,20),c.rng.d(-20,20)}; LD an=c.rng.d(0,3.1); for( int i=0;i<n;i++ ) v.push_back(a+(LD)c.rng.d(-9,9)*P{cosl(an),sinl(an)}); break; } // aligned up to rounding
		case 9: { P o{c.rng.d(-20,20),c.rng.d(-20,20)}; LD r=c.rng.d(1,20), e=std::exp(c.rng.d(-22,-12)); for( int i=0;i<n;i++ ) { LD a=c.rng.d(0,6.283), k=r*(1+e*(LD)c.rng.d(-1,1)); v.push_back(o+k*P{cosl(a),sinl(a)}); } break; } // nearly cocircular
		case 7: { P a=ipt(c.rng,R); for( int i=0;i<n;i++ ) v.push_back(a+(LD)std::pow(10,c.rng.d(-4,1.5))*P{c.rng.d(-1,1),c.rng.d(-1,1)}); break; } // clusters
		default: { P o=ipt(c.rng,9); LD r=c.rng.i(1,5)*5; Poly q{{r,0},{-r,0},{0,r},{0,-r},{r*3/5,r*4/5},{-r*4/5,r*3/5},{-r*3/5,-r*4/5},{r*4/5,-r*3/5}}; for( int i=0;i<n;i++ ) v.push_back(o+c.rng.pick(q)); } // exact cocircular, diametral
	}
	for( auto&p:v ) { p.x=(double)p.x; p.y=(double)p.y; }
	return v;
}
template<typename F> void judge( mon::Case& c, const std::string& k, const Circle_<F>& g, const Poly& v, const Cir& e, LD eps )
{
	LD S=1; for( auto&p:v ) S=std::max(S,std::max(std::fabs(p.x),std::fabs(p.y))); P o=rd(g.center()); LD r=g.radius(), worst=0; for( auto&p:v ) worst=std::max(worst,ref::dist(p,o)-r);
	auto show=[&](std::ostream&s){ s<<"circle "<<str(o)<<" r="<<r<<" expected "<<str(e.c)<<" r="<<e.r<<" worst outside by "<<worst; };
	c.chkf(k+"encloses",worst<=eps*S,show); c.chkf(k+"smallest",r<=e.r+eps*S,show); c.chkf(k+"center",ref::dist(o,e.c)<=std::sqrt(eps)*S*20,show);
}
template<typename F> void mecs( mon::Case& c, LD eps )
{
	int kind; Poly v=cloud(c,kind); for( auto&p:v ) { p.x=(F)p.x; p.y=(F)p.y; } inV(c,"v",v); LD D=0; for( auto&p:v ) D=std::max(D,ref::dist(p,v[0])); typedef Point2d_<F> Pt;
	std::vector<Pt> w; for( auto&p:v ) w.push_back(Pt((F)p.x,(F)p.y)); const auto w0=w;
	if( D==0 ) { c.cls("all-identical"); c.throws("identical-refused",[&]{ Circle_<F> k(w0); }); Circle z(5,6,2); c.throws("identical-refused-set",[&]{ z.set(w0); }); c.chk("unchanged-after-failure",rd(z.center())==P{5,6}&&z.radius()==2); c.throws("null-radius-after-failure",[&]{ Circle q(0,0,0); }); return; }
	if( D<1e-6 ) { c.skip("tiny"); return; }
	c.cls("kind"+std::to_string(kind)); c.cls("n"+std::to_string(std::min<size_t>(v.size(),10))); Cir e=refMec(v); if( v.size()>9 ) { for( auto&p:v ) if( ref::dist(p,e.c)>e.r*(1+1e-12L) ) { c.skip("reference hull"); return; } }
	Circle_<F> g(w0); judge(c,"",g,v,e,eps); Circle_<F> g2(1,1,1); g2.set(w0); c.chk("set-same",g2==g);
	{ auto s=w; c.rng.shuffle(s); Circle_<F> h(s); judge(c,"shuffled-",h,v,e,eps); std::reverse(w.begin(),w.end()); Circle_<F> h2(w); judge(c,"reversed-",h2,v,e,eps); }
	{ std::list<Pt> l(w0.begin(),w0.end()); Circle_<F> h(l); c.chk("list-same",h==g); } if( v.size()>=4 ) { std::array<Pt,4> a{w0[0],w0[1],w0[2],w0[3]}; Poly q(v.begin(),v.begin()+4); LD d=0; for( auto&p:q ) d=std::max(d,ref::dist(p,q[0])); if( d>1e-6L ) { Circle_<F> h; h.set(a); judge(c,"array-",h,q,ref::mec(q),eps); } }
	if( v.size()<=12 ) { auto x=w0; x.insert(x.end(),w0.begin(),w0.end()); Circle_<F> h(x); judge(c,"doubled-",h,v,e,eps); }
	c.throws("null-radius-refused",[&]{ Circle q(0,0,0); }); if( v.size()>=3 ) { bool dup=false; for( size_t i=0;i+1<v.size();i++ ) dup=dup||v[i]==v[i+1]; dup=dup||v[0]==v.back(); if( !dup ) { CPolyline_<F> cp(w0); Circle_<F> h(static_cast<const CPolyline_<F>&>(cp).getPts()); c.chk("polyline-pts",h==g); } }
}
SECTION(mec,14000) { if( c.rng.coin(5) ) mecs<float>(c,4e-7L); else if( c.rng.coin(5) ) mecs<long double>(c,2e-10L); else mecs<NT>(c,2e-10L); }
SECTION(mec_large,12) { Poly v; int n=(int)c.rng.i(2000,20000); P o{c.rng.d(-9,9),c.rng.d(-9,9)}; for( int i=0;i<n;i++ ) { LD a=c.rng.d(0,6.283), r=(c.idx%2)?(LD)c.rng.d(0,30):30; v.push_back({(LD)(double)(o.x+r*cosl(a)),(LD)(double)(o.y+r*sinl(a))}); } c.in("n",n,o.x,o.y); Poly h=ref::hull(v); auto w=mkv(v); Circle g(w); LD worst=0; for( auto&p:v ) worst=std::max(worst,ref::dist(p,rd(g.center()))-(LD)g.radius()); c.chk("encloses",worst<1e-8L); if( h.size()<60 ) { Cir e=ref::mec(h); c.near("radius",g.radius(),e.r,1e-8L); } else c.chk("radius-max",g.radius()<=30+1e-8L); }
SECTION(two,5000)
{
	P a=pt(c.rng),b=pt(c.rng); a={(double)a.x,(double)a.y}; b={(double)b.x,(double)b.y}; if( c.rng.coin(20) ) b=a; inP(c,"a",a); inP(c,"b",b); if( a==b ) { c.throws("identical",[&]{ Circle k(mk(a),mk(b)); }); c.throws("identical-set",[&]{ Circle k; k.set(mk(a),mk(b)); }); return; } LD d=ref::dist(a,b); if( d<1e-6L ) { c.skip("close"); return; }
	auto one=[&]( const std::string& k, auto g, LD T ) { P m=ref::mid(a,b); c.chkf(k+"center",ref::dist(rd(g.center()),m)<=T,[&](std::ostream&o){o<<str(rd(g.center()));}); c.near(k+"radius",g.radius(),d/2,T); c.near(k+"through-a",ref::dist(rd(g.center()),a),g.radius(),T); };
	LD S=1+ref::norm(a)+ref::norm(b); one("",Circle(mk(a),mk(b)),1e-13L*S); one("rev-",Circle(mk(b),mk(a)),1e-13L*S); { Circle k(7,7,7); k.set(mk(a),mk(b)); one("set-",k,1e-13L*S); } one("vec-",Circle(mkv({a,b})),1e-13L*S); one("mixed-",Circle_<NT>(Point2d_<long double>(a.x,a.y),mk(b)),1e-13L*S); one("float-",Circle_<float>(mk(a),mk(b)),3e-7L*S); one("ld-",Circle_<long double>(Point2d_<long double>(a.x,a.y),Point2d_<long double>(b.x,b.y)),1e-13L*S);
}
SECTION(three,9000)
{
	P p[3]; for( auto&q:p ) { q=c.rng.coin()?ipt(c.rng,(int)c.rng.i(1,20)):pt(c.rng); q={(double)q.x,(double)q.y}; } if( c.rng.coin(8) ) p[2]=c.rng.coin()?p[0]:p[1]; if( c.rng.coin(6) ) { P d=ipt(c.rng,4); p[0]=ipt(c.rng,9); p[1]=p[0]+(LD)c.rng.i(-5,5)*d; p[2]=p[0]+(LD)c.rng.i(-5,5)*d; } if( c.rng.coin() ) std::swap(p[1],p[0]);
	for( auto&q:p ) inP(c,"p",q); LD ar=std::fabs(ref::crs(p[0],p[1],p[2])), L=std::max(ref::dist(p[0],p[1]),std::max(ref::dist(p[1],p[2]),ref::dist(p[0],p[2])));
	if( ar==0 && L<1e3L && p[0].x==std::floor(p[0].x)&&p[0].y==std::floor(p[0].y)&&p[1].x==std::floor(p[1].x)&&p[1].y==std::floor(p[1].y)&&p[2].x==std::floor(p[2].x)&&p[2].y==std::floor(p[2].y) ) { c.cls("collinear"); Circle k(1,2,3); c.throws("collinear",[&]{ Circle q(mk(p[0]),mk(p[1]),mk(p[2])); }); c.throws("collinear-set",[&]{ k.set(mk(p[0]),mk(p[1]),mk(p[2])); }); c.chk("kept",k==Circle(1,2,3)); return; }
	LD s[3]={ref::dist(p[0],p[1]),ref::dist(p[1],p[2]),ref::dist(p[0],p[2])}; std::sort(s,s+3); if( s[0]<1e-3L || ar/(s[2]*s[1])<5e-3L ) { c.skip("flat"); return; } Cir e; ref::circum(p[0],p[1],p[2],e);
	LD S=1+L+ref::norm(p[0]), T=1e-11L*S*(L*L/ar)*(L*L/ar)*std::max((LD)1,S/L); auto one=[&]( const std::string& k, auto g, LD t ) { for( int i=0;i<3;i++ ) c.chkf(k+"through",std::fabs(ref::dist(rd(g.center()),p[i])-(LD)g.radius())<=t,[&](std::ostream&o){ o<<g<<" point "<<i<<" off by "<<ref::dist(rd(g.center()),p[i])-(LD)g.radius()<<" tol "<<t; }); c.near(k+"radius",g.radius(),e.r,t); };
	int perm[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for( auto&q:perm ) one("",Circle(mk(p[q[0]]),mk(p[q[1]]),mk(p[q[2]])),T); Circle k; k.set(mk(p[0]),mk(p[1]),mk(p[2])); one("set-",k,T); Circle_<float> kf(mk(p[0]),mk(p[1]),mk(p[2])); LD S2=S+e.r+ref::norm(e.c); one("float-",kf,T+4e-7L*S2);
}
SECTION(measures,6000)
{
	P o=pt(c.rng); o={(double)o.x,(double)o.y}; NT r=(NT)(double)std::pow(10,c.rng.d(-3,3)); if( c.rng.coin(3) ) r=(NT)c.rng.i(1,50); inP(c,"o",o); c.in("r",r);
	Circle a(mk(o),r), b((NT)o.x,(NT)o.y,r), d; d.set(mk(o),r); Circle e; e.set((NT)o.x,(NT)o.y,r); Circle f(mk(o)); f.set(r); Circle g(r); g.set(mk(o)); Circle h; h.center()=mk(o); h.radius()=r; Circle_<NT> i(a);
	for( auto x: {&a,&b,&d,&e,&f,&g,&h,&i} ) { c.chk("radius",x->radius()==r&&radius(*x)==r); c.chk("center",rd(x->center())==o&&rd(x->getCenter())==o&&rd(center(*x))==o); LD A=(LD)r*r*ref::PI, Lg=2*(LD)r*ref::PI; c.near("area",x->area(),A,A*1e-14L); c.near("free-area",area(*x),A,A*1e-14L); c.near("length",x->length(),Lg,Lg*1e-14L); c.near("free-length",length(*x),Lg,Lg*1e-14L); c.chk("size",x->size()==1); c.chk("eq",*x==a&&!(*x!=a)); }
	{ Circle k(a); k.radius()+=r/2; c.chk("ne-radius",k!=a&&!(k==a)); Circle m(a); m.center().translate(1,0); c.chk("ne-center",m!=a); Circle dd; c.chk("default",dd.radius()==1&&rd(dd.center())==P{0,0}); Circle one(mk(o)); c.chk("default-radius",one.radius()==1); }
	{ Circle k(a); k.set(mk(o+P{1,1})); c.chk("set-center-keeps-radius",k.radius()==r&&rd(k.center())==(o+P{1,1})); k.set(r*2); c.chk("set-radius-keeps-center",k.radius()==r*2&&rd(k.center())==(o+P{1,1})); }
	NT bad=c.rng.pick(std::vector<NT>{0,-1,(NT)-1e-3,-r}); c.in("bad",bad); Circle k(a); c.throws("bad-radius",[&]{ Circle q(mk(o),bad); }); c.throws("bad-radius3",[&]{ Circle q((NT)o.x,(NT)o.y,bad); }); c.throws("bad-radius1",[&]{ Circle q(bad); }); c.throws("set-bad",[&]{ k.set(bad); }); c.throws("set-bad2",[&]{ k.set(mk(o),bad); }); c.throws("set-bad3",[&]{ k.set((NT)1,(NT)1,bad); }); c.chk("unchanged",k==a);
	c.throws("one-point",[&]{ Circle q(mkv({o})); }); c.throws("no-point",[&]{ Circle q(std::vector<Point2d>{}); }); c.throws("bad-after-failure",[&]{ Circle q(mk(o),0); });
}
SECTION(pairs,12000)
{
	P o1=pt(c.rng),o2=pt(c.rng); LD r1=c.rng.d(0.1,30),r2=c.rng.coin(4)?r1:(LD)c.rng.d(0.1,30); if( c.rng.coin() ) { o1=ipt(c.rng,9); o2=ipt(c.rng,9); r1=c.rng.i(1,12); r2=c.rng.i(1,12); } if( c.rng.coin(6) ) { LD a=c.rng.d(0,6.28),k=(r1+r2)*c.rng.d(0.2,3); o2=o1+k*P{cosl(a),sinl(a)}; } if( c.rng.coin(15) ) o2=o1; if( c.rng.coin(30) ) r2=r1; o1={(double)o1.x,(double)o1.y}; o2={(double)o2.x,(double)o2.y}; r1=(double)r1; r2=(double)r2;
	inP(c,"o1",o1); inP(c,"o2",o2); c.in("r",r1,r2); Circle a(mk(o1),(NT)r1),b(mk(o2),(NT)r2); LD h=ref::dist(o1,o2), dr=std::fabs(r1-r2), S=1+ref::norm(o1)+ref::norm(o2)+r1+r2;
	if( h>1e-6L ) { auto s=getSegment(a,b); auto p=s.getPts(); P u=rd(p.first),v=rd(p.second); c.chk("segment",(u==o1&&v==o2)||(u==o2&&v==o1)); auto l=getLine<NT>(a,b); c.near("line-1",dL(l,o1),0,1e-11L*S*std::max((LD)1,1/h)); c.near("line-2",dL(l,o2),0,1e-11L*S*std::max((LD)1,1/h)); }
	else { c.throws("null-segment",[&]{ (void)getSegment(a,b); }); c.throws("null-line",[&]{ (void)getLine<NT>(a,b); }); }
	if( h==0 && dr==0 ) { c.cls("identical"); c.throws("tan-identical",[&]{ (void)getTanSegs(a,b); }); return; }
	if( h<=dr*(1-1e-9L) || (h==0) || (o1.x==std::floor(o1.x)&&h<dr) ) { c.cls("nested"); c.throws("tan-nested",[&]{ (void)getTanSegs(a,b); }); c.throws("tan-nested-rev",[&]{ (void)getTanSegs(b,a); }); return; }
	LD hc2=h*h-dr*dr; if( hc2<1e-2L || std::sqrt(hc2)<0.05L*h || h<1e-2L || (dr>0&&dr<1e-6L) ) { c.skip("near internal tangency"); return; } LD len=std::sqrt(hc2); c.cls(dr==0?"equal-radii":h>r1+r2?"disjoint":"crossing");
	for( int rev=0; rev<2; rev++ )
	{
		auto t= rev? getTanSegs(b,a) : getTanSegs(a,b); int side[2]; int k=0; LD T=1e-9L*S*std::max((LD)1,h/len)*std::max((LD)1,1/h);
		for( auto& s: {t.first,t.second} )
		{
			auto pp=s.getPts(); P u=rd(pp.first),v=rd(pp.second); bool sw=std::fabs(ref::dist(u,o1)-r1)>T||std::fabs(ref::dist(v,o2)-r2)>T; if( sw ) std::swap(u,v);
			auto show=[&](std::ostream&o){ o<<s<<" tol "<<T<<" length "<<len; }; c.chkf("tan-ends-on-circles",std::fabs(ref::dist(u,o1)-r1)<=T&&std::fabs(ref::dist(v,o2)-r2)<=T,show); c.chkf("tan-length",std::fabs(ref::dist(u,v)-len)<=T,show); P d=(1/ref::dist(u,v))*(v-u); c.chkf("tan-orthogonal",std::fabs(ref::dot(d,u-o1))<=T*3&&std::fabs(ref::dot(d,v-o2))<=T*3,show);
			side[k++]=ref::crs(o1,o2,u)>0?1:-1; c.chkf("tan-same-side",(ref::crs(o1,o2,u)>0)==(ref::crs(o1,o2,v)>0)||std::min(std::fabs(ref::crs(o1,o2,u)),std::fabs(ref::crs(o1,o2,v)))<1e-6L*h*S,show);
		}
		c.chk("tan-both-sides",side[0]*side[1]<0);
	}
}
SECTION(knob,1) { bool k=thr::doNotCheckRadius(); c.in("k",k); c.chk("off",!k); thr::doNotCheckRadius()=true; c.quiet("allowed",[&]{ Circle q(0,0,0); }); thr::doNotCheckRadius()=false; c.throws("refused",[&]{ Circle q(0,0,0); }); }
MON_MAIN
