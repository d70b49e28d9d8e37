#define HOMOG2D_USE_OPENCV
#define HOMOG2D_USE_EIGEN
#include "h2.hpp"
using namespace gen; using ref::M3;

// projective basis: columns k1 p1, k2 p2, k3 p3 with sum = p4
static bool basis( const Poly& v, M3& o )
{
	M3 m{}; for( int j=0;j<3;j++ ) { m[0][j]=v[j].x; m[1][j]=v[j].y; m[2][j]=1; }
	if( ref::det(m)==0 ) return false;
	M3 i=ref::inv(m); for( int j=0;j<3;j++ ) { LD k=i[j][0]*v[3].x+i[j][1]*v[3].y+i[j][2]; for( int r=0;r<3;r++ ) o[r][j]=m[r][j]*k; }
	return true;
}
// smallest triangle area, relative to the squared extent
static LD general( const Poly& v ) { LD m=1e300L,ext=0; for( int i=0;i<4;i++ ) for( int j=i+1;j<4;j++ ) { ext=std::max(ext,ref::dist(v[i],v[j])); for( int k=j+1;k<4;k++ ) m=std::min(m,std::fabs(ref::crs(v[i],v[j],v[k]))); } return m/(ext*ext+1e-300L); }
static Poly four( mon::Rng& r )
{
	for(;;)
	{
		Poly v; switch( r.i(0,3) )
		{
			case 0: v={{0,0},{1,0},{1,1},{0,1}}; { LD k=(LD)r.i(1,40)/4; P t{(LD)r.i(-40,40)/4,(LD)r.i(-40,40)/4}; for( auto&p:v ) p=k*p+t; } if( r.coin(3) ) std::reverse(v.begin(),v.end()); break;
			case 1: v=convexPoly(r,4,P{(LD)r.d(-20,20),(LD)r.d(-20,20)},r.d(1,20)); break;
			default: for( int i=0;i<4;i++ ) v.push_back({ (LD)r.i(-80,80)/4,(LD)r.i(-80,80)/4 });
		}
		for( auto&p:v ) { p.x=(LD)(float)p.x; p.y=(LD)(float)p.y; } // exactly representable in every storage type
		if( general(v)>0.05 ) return v;
	}
}
// the reference map, false when it cannot be written with a unit last coefficient or is badly conditioned
static bool refH( const Poly& s, const Poly& d, M3& m )
{
	M3 a,b; if( !basis(s,a)||!basis(d,b) ) return false;
	m=ref::mul(b,ref::inv(a)); LD mw=1e300L, xw=0; for( auto&p:s ) { mw=std::min(mw,std::fabs(ref::apw(m,p))); xw=std::max(xw,std::fabs(ref::apw(m,p))); }
	if( std::fabs(m[2][2])<0.05*xw || mw<0.05*xw ) return false;
	LD k=m[2][2]; for( auto&r:m ) for( auto&x:r ) x/=k;
	M3 i=ref::inv(m); LD mi=0; for( auto&p:d ) mi=std::max(mi,std::fabs(ref::apw(i,p))); if( std::fabs(i[2][2])<1e-3L*frob(i) || mi>1e3*std::fabs(i[2][2]) ) return false; // same condition for the inverse
	return condM(m)<3e4;
}
template<typename F> Point2d_<F> mkF( P p ) { return Point2d_<F>( (F)p.x,(F)p.y ); }
template<typename F> std::vector<Point2d_<F>> mkvF( const Poly& v ) { std::vector<Point2d_<F>> o; for( auto&p:v ) o.push_back(mkF<F>(p)); return o; }

template<typename F> void body( mon::Case& c, LD eps )
{
	Poly s=four(c.rng),d=c.rng.coin(10)?s:four(c.rng); inV(c,"src",s); inV(c,"dst",d); M3 m; if( !refH(s,d,m) ) { c.skip("ill-conditioned"); return; }
	LD K=condM(m); M3 im=ref::inv(m); const LD eps0=eps;
	auto epsOf=[&]( int meth ) { return meth ? std::max(eps0,(LD)4e-7L) : eps0; }; // OpenCV forms the products in single precision
	auto vs=mkvF<F>(s),vd=mkvF<F>(d);
	M3 got[2];
	for( int meth=0;meth<2;meth++ )
	{
		std::string k=meth?"opencv":"eigen"; Homogr_<F> H; LD eps=epsOf(meth), tol=eps*K*50;
		switch( c.rng.i(0,3) )
		{
			case 0: H.buildFrom4Points(vs,vd,meth); break;
			case 1: H=buildFrom4Points(vs,vd,meth); break;
			case 2: { Homogr_<F> G; G.addRotation(1.).addTranslation(3,4); Line2d_<F> l=G*Line2d_<F>(1,2,3); (void)l; H=G; l=H*l; H.buildFrom4Points(vs,vd,meth); break; }
			default: if( meth==1 ) { H.buildFrom4Points(vs,vd); } else { H.buildFrom4Points(vd,vs,0); Line2d_<F> l=H*Line2d_<F>(1,2,3); (void)l; H.buildFrom4Points(vs,vd,0); } break;
		}
		got[meth]=rdM(H);
		c.near(k+"-matrix",projDiff(got[meth],m),0,tol);
		for( int i=0;i<4;i++ ) { nearP(c,k+"-maps",H*vs[i],d[i],tol*100); }
		for( int rep=0;rep<2;rep++ ) for( int i=0;i<4;i++ )
		{
			P a=d[i],b=d[(i+1)%4]; Line2d_<F> l=H*(vs[i]*vs[(i+1)%4]); c.near(k+"-line",std::max(dL(l,a),dL(l,b)),0,tol*1000);
		}
		Homogr_<F> I=H; I.inverse();
		for( int i=0;i<4;i++ ) nearP(c,k+"-inverse",I*vd[i],s[i],tol*3000);
		Homogr_<F> B; B.buildFrom4Points(vd,vs,meth); c.near(k+"-swap-is-inverse",projDiff(rdM(B),im),0,eps*K*K*50);
		// composes like any other homography
		Homogr_<F> T; T.addScale(2,2).addTranslation(1,-3); Homogr_<F> C=T*H; for( int i=0;i<4;i++ ) nearP(c,k+"-compose",C*vs[i],P{2*d[i].x+1,2*d[i].y-3},tol*300);
		P q=ref::mid(s[0],s[2]); if( std::fabs(ref::apw(m,q))>0.1 ) nearP(c,k+"-other-point",H*mkF<F>(q),ref::ap(m,q),tol*2000*(1+ref::norm(ref::ap(m,q))/20)/std::min((LD)1,std::fabs(ref::apw(m,q))));
	}
	c.near("backends-agree",projDiff(got[0],got[1]),0,100*epsOf(1)*K);
	// order of the pairs does not matter
	std::vector<int> ix{0,1,2,3}; c.rng.shuffle(ix); std::vector<Point2d_<F>> ps,pd; for( int i: ix ) { ps.push_back(vs[i]); pd.push_back(vd[i]); }
	for( int meth=0;meth<2;meth++ ) { Homogr_<F> H; H.buildFrom4Points(ps,pd,meth); c.near("pair-order",projDiff(rdM(H),m),0,50*epsOf(meth)*K); }
	// sources unchanged
	bool same=true; for( int i=0;i<4;i++ ) same=same&&rd(vs[i])==s[i]&&rd(vd[i])==d[i]; c.chk("inputs-unchanged",same);
}
SECTION(dbl,6000) { body<double>(c,1e-13L); }
SECTION(flt,2000) { body<float>(c,2e-6L); }
SECTION(ldbl,2000) { body<long double>(c,1e-13L); }
SECTION(sizes,2000)
{
	int a=(int)c.rng.i(0,7),b=(int)c.rng.i(0,7),me=(int)c.rng.i(0,1); c.in("sizes",a,b,me); if( a==4&&b==4 ) { c.skip("legal"); return; }
	std::vector<Point2d> va,vb; for( int i=0;i<a;i++ ) va.push_back(mk(pt(c.rng))); for( int i=0;i<b;i++ ) vb.push_back(mk(pt(c.rng)));
	Homogr H=mkH(rndH(c.rng)); M3 before=rdM(H); c.throws("size",[&]{ H.buildFrom4Points(va,vb,me); }); c.throws("size-free",[&]{ (void)buildFrom4Points(va,vb,me); }); M3 af=rdM(H); bool same=true; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) same=same&&af[i][j]==before[i][j]; c.chk("unchanged",same);
}
MON_MAIN
