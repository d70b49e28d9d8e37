// C22: values carried to and from the types of other libraries
#define HOMOG2D_USE_OPENCV
#define HOMOG2D_USE_BOOSTGEOM
#define HOMOG2D_NOWARNINGS
#include "h2.hpp"
using namespace gen;
using ref::M3;
namespace bg = boost::geometry;
struct MyPt { double a=0,b=0; MyPt()=default; MyPt( double x, double y ): a(x),b(y) {} };
struct MyPtI { long a=0,b=0; MyPtI()=default; MyPtI( long x, long y ): a(x),b(y) {} };
template<typename S> using BP=bg::model::point<S,2,bg::cs::cartesian>;
template<typename S> using BX=bg::model::d2::point_xy<S>;
static double coord( mon::Rng& r ) { switch( r.i(0,5) ) { case 0: return (double)r.i(-100,100); case 1: return r.d(-1,1)*1e-3; case 2: return r.d(-1e6,1e6); case 3: return (double)r.i(-20000,20000)/8; case 4: return 0; default: return r.d(-500,500); } }
template<typename S> S sval( mon::Rng& r ) { double v=coord(r); if( std::is_integral<S>::value ) v=std::trunc(v); return (S)v; }
// |got-ref| within one rounding of the narrower of the two types; whole numbers are exact
template<typename F> bool carried( F got, LD src, int bits ) { return got==(F)src||std::fabs((LD)got-src)<=std::fabs(src)*ldexpl(1.0L,-bits); }
template<typename F> void ptIs( mon::Case& c, const char* key, const Point2d_<F>& p, LD x, LD y ) { int b=sizeof(F)==4?22:51; c.chkf(key,carried(p.getX(),x,b)&&carried(p.getY(),y,b),[&]( std::ostream& o ) { o<<"point is "<<(double)p.getX()<<","<<(double)p.getY()<<" expected "<<(double)x<<","<<(double)y; }); auto h=p.get(); c.chk("homogeneous-finite",h[2]!=0); }
// ---------------- single points ----------------
template<typename F,typename S> void pointIn( mon::Case& c )
{
	S x=sval<S>(c.rng), y=sval<S>(c.rng); c.in("xy",+x,+y); Point2d_<F> old((F)coord(c.rng),(F)coord(c.rng)); if( c.rng.coin(3) ) old=Homogr_<F>((F)c.rng.d(-1,1))*old; c.in("old",old.getX(),old.getY());
	{ cv::Point_<S> q(x,y); Point2d_<F> a(q); ptIs(c,"cv-constructor",a,x,y); Point2d_<F> b=q; ptIs(c,"cv-copy-init",b,x,y); auto d=old; d=q; ptIs(c,"cv-assign",d,x,y); c.chk("cv-assign-same",d==a&&a==Point2d_<F>((F)x,(F)y)); c.chk("source-kept",q.x==x&&q.y==y); auto s=old; s.set(q.x,q.y); ptIs(c,"set",s,x,y); }
	if constexpr( std::is_floating_point<S>::value ) { BP<S> q1(x,y); BX<S> q2(x,y); Point2d_<F> a(q1), b(q2), e=q1, f=q2; ptIs(c,"boost-point-constructor",a,x,y); ptIs(c,"boost-xy-constructor",b,x,y); ptIs(c,"boost-point-copy-init",e,x,y); ptIs(c,"boost-xy-copy-init",f,x,y); auto d=old; d.set(q1); ptIs(c,"boost-point-set",d,x,y); d=old; d.set(q2); ptIs(c,"boost-xy-set",d,x,y); d=old; d=q1; ptIs(c,"boost-point-assign",d,x,y); d=old; d=q2; ptIs(c,"boost-xy-assign",d,x,y); c.chk("boost-same",a==b&&a==d); }
	// a line built from a single point goes through the origin and that point
	if( std::hypot((LD)x,(LD)y)>0.01L ) { cv::Point_<S> q(x,y); Line2d_<F> l(q), l2((F)1,(F)2); l2=q; for( auto* k: {&l,&l2} ) { auto v=k->get(); LD n=std::hypot((LD)v[0],(LD)v[1]); LD tol=sizeof(F)==4?2e-6L:1e-13L; c.near("cv-line-unit",n,1,1e-5L); c.near("cv-line-through-origin",(LD)v[2],0,tol*10); c.near("cv-line-through-point",((LD)v[0]*x+(LD)v[1]*y+(LD)v[2])/std::hypot((LD)x,(LD)y),0,tol*10); } }
}
SECTION(point_import,9000)
{
	auto go=[&]( auto f ) { using F=decltype(f); switch( c.rng.i(0,2) ) { case 0: pointIn<F,float>(c); c.cls("float"); break; case 1: pointIn<F,double>(c); c.cls("double"); break; default: pointIn<F,int>(c); c.cls("int"); } }; switch( c.rng.i(0,2) ) { case 0: go(1.f); break; case 1: go(1.); break; default: go(1.L); }
}
template<typename F> void pointOut( mon::Case& c )
{
	F x0=(F)coord(c.rng), y0=(F)coord(c.rng); Point2d_<F> p(x0,y0); auto x=p.getX(), y=p.getY(); bool homog=c.rng.coin(3); if( homog ) { F w=(F)c.rng.d(0.5,3); p.set(x0*w,y0*w,w); x=p.getX(); y=p.getY(); } c.in("p",x,y); auto keep=p.get(); const Point2d_<F>& cp=p;
	auto f=[&]( const char* key, LD gx, LD gy, auto s ) { using S=decltype(s); bool ok; if( std::is_integral<S>::value ) ok=std::fabs(gx-(LD)x)<1&&std::fabs(gy-(LD)y)<1&&(x!=std::trunc(x)||gx==x)&&(y!=std::trunc(y)||gy==y); else ok=(S)gx==(S)x&&(S)gy==(S)y; c.chkf(key,ok,[&]( std::ostream& o ) { o<<"got "<<(double)gx<<","<<(double)gy; }); };
	{ cv::Point2d a=cp.getCvPtd(), b=getCvPtd(cp); f("cv-double-member",a.x,a.y,1.); f("cv-double-free",b.x,b.y,1.); } { cv::Point2f a=cp.getCvPtf(), b=getCvPtf(cp); f("cv-float-member",a.x,a.y,1.f); f("cv-float-free",b.x,b.y,1.f); } { cv::Point2i a=cp.getCvPti(), b=getCvPti(cp); f("cv-int-member",a.x,a.y,1); f("cv-int-free",b.x,b.y,1); c.chk("cv-int-same",a==b&&a==(cv::Point2i)cp.template getPt<cv::Point2i>()); }
	{ auto a=cp.template getPt<cv::Point2d>(); auto b=getPt<cv::Point2f>(cp); f("getPt-cv-double",a.x,a.y,1.); f("getPt-cv-float",b.x,b.y,1.f); } { auto a=cp.template getPt<BP<double>>(); auto b=getPt<BP<float>>(cp); f("getPt-boost-point",bg::get<0>(a),bg::get<1>(a),1.); f("getPt-boost-point-float",bg::get<0>(b),bg::get<1>(b),1.f); } { auto a=cp.template getPt<BX<double>>(); auto b=getPt<BX<float>>(cp); f("getPt-boost-xy",a.x(),a.y(),1.); f("getPt-boost-xy-float",b.x(),b.y(),1.f); } { auto a=cp.template getPt<MyPt>(); auto b=getPt<MyPtI>(cp); f("getPt-user",a.a,a.b,1.); f("getPt-user-int",b.a,b.b,1L); }
	c.chk("unchanged",cp.get()==keep);
	// and back
	Point2d_<F> r1(cp.template getPt<BP<F>>()), r2(cp.template getPt<BX<F>>()), r3(cp.template getPt<cv::Point_<F>>()); c.chk("round-trip",homog||r1.getX()==x&&r1.getY()==y&&r2.getX()==x&&r2.getY()==y&&r3.getX()==x&&r3.getY()==y);
	int n=gen::num(c.rng,0,9,30,300); std::vector<Point2d_<F>> v; for( int i=0;i<n;i++ ) v.emplace_back((F)coord(c.rng),(F)coord(c.rng)); c.in("n",n); auto vec=[&]( const char* key, const auto& out, auto gx, auto gy, auto s ) { using S=decltype(s); if( !c.chk(std::string(key)+"-size",out.size()==v.size()) ) return; bool ok=true; for( size_t i=0;i<v.size();i++ ) ok=ok&&(S)gx(out[i])==(S)v[i].getX()&&(S)gy(out[i])==(S)v[i].getY(); c.chk(key,ok); };
	vec("vector-cv-double",getPts<cv::Point2d>(v),[]( auto& q ) { return q.x; },[]( auto& q ) { return q.y; },1.); vec("vector-cv-float",getPts<cv::Point2f>(v),[]( auto& q ) { return q.x; },[]( auto& q ) { return q.y; },1.f); vec("vector-boost-xy",getPts<BX<double>>(v),[]( auto& q ) { return q.x(); },[]( auto& q ) { return q.y(); },1.); vec("vector-boost-point",getPts<BP<float>>(v),[]( auto& q ) { return bg::get<0>(q); },[]( auto& q ) { return bg::get<1>(q); },1.f); vec("vector-user",getPts<MyPt>(v),[]( auto& q ) { return q.a; },[]( auto& q ) { return q.b; },1.);
}
SECTION(point_export,6000) { switch( c.rng.i(0,2) ) { case 0: pointOut<float>(c); break; case 1: pointOut<double>(c); break; default: { // long double: member and free functions narrow to double
	LD x=coord(c.rng), y=coord(c.rng); Point2d_<LD> p(x,y); c.in("p",x,y); auto a=getPt<cv::Point2d>(p); auto b=p.getCvPtf(); c.chk("long-double",a.x==(double)x&&a.y==(double)y&&b.x==(float)x&&b.y==(float)y); } } }
// ---------------- homogeneous triplets ----------------
template<typename F,typename S,bool LINE,typename A> void triplet( mon::Case& c, const A& arr, LD v0, LD v1, LD v2 )
{
	using O=typename std::conditional<LINE,Line2d_<F>,Point2d_<F>>::type; O a(arr); O b=arr; O d; if constexpr( LINE ) d=O((F)3,(F)4); else d=O((F)3,(F)4); d=arr; for( auto* o: {&a,&b,&d} ) { auto g=o->get(); if( LINE ) { LD n=std::hypot(v0,v1); LD s=(v0*(LD)g[0]+v1*(LD)g[1])<0?-1:1; LD t=sizeof(F)==4?1e-5L:1e-12L; c.near("line-a",s*(LD)g[0],v0/n,t); c.near("line-b",s*(LD)g[1],v1/n,t); c.near("line-c",s*(LD)g[2],v2/n,t*(1+std::fabs(v2/n))); } else if constexpr( !LINE ) { LD t=sizeof(F)==4?1e-5L:1e-12L; c.near("point-x",(LD)o->getX(),v0/v2,t*(1+std::fabs(v0/v2))); c.near("point-y",(LD)o->getY(),v1/v2,t*(1+std::fabs(v1/v2))); } }
}
template<typename F,typename S> void triplets( mon::Case& c )
{
	S v[3]; for( int i=0;i<3;i++ ) v[i]=std::is_integral<S>::value?(S)c.rng.i(-50,50):(S)c.rng.d(-50,50); bool line=c.rng.coin(); if( line ) { if( std::hypot((LD)v[0],(LD)v[1])<0.5L ) v[0]=(S)3; } else if( std::fabs((LD)v[2])<0.5L ) v[2]=(S)2; c.in("v",+v[0],+v[1],+v[2]); std::array<S,3> ar{v[0],v[1],v[2]}; std::vector<S> ve{v[0],v[1],v[2]};
	if( line ) { triplet<F,S,true>(c,ar,v[0],v[1],v[2]); triplet<F,S,true>(c,ve,v[0],v[1],v[2]); } else { triplet<F,S,false>(c,ar,v[0],v[1],v[2]); triplet<F,S,false>(c,ve,v[0],v[1],v[2]); }
	int n=(int)c.rng.i(0,6); if( n!=3 ) { std::vector<S> bad((size_t)n,(S)1); c.in("bad-size",n); c.throws("mis-sized-point",[&]{ Point2d_<F> q(bad); }); c.throws("mis-sized-line",[&]{ Line2d_<F> q(bad); }); Point2d_<F> q((F)1,(F)2); c.throws("mis-sized-assign",[&]{ q=bad; }); c.chk("kept-after-refusal",q.getX()==1&&q.getY()==2); }
}
SECTION(triplet,4000) { switch( c.rng.i(0,5) ) { case 0: triplets<double,double>(c); break; case 1: triplets<double,float>(c); break; case 2: triplets<double,int>(c); break; case 3: triplets<float,double>(c); break; case 4: triplets<float,float>(c); break; default: triplets<long double,double>(c); } }
// ---------------- matrices ----------------
static M3 rndM3( mon::Rng& r ) { M3 m; for( auto& l:m ) for( auto& v:l ) v=(LD)(float)r.d(-3,3); m[2][2]=(LD)(float)(r.coin()?1:r.d(0.5,4)); return m; }
template<typename MT> bool eqM( const MT& H, const M3& m, LD s, LD tol ) { for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) if( !(std::fabs((LD)H.value(i,j)-m[i][j]*s)<=tol*(1+std::fabs(m[i][j]*s))) ) return false; return true; }
template<typename MT> std::string strM( const MT& H ) { std::ostringstream o; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) o<<(double)H.value(i,j)<<" "; return o.str(); }
static cv::Mat toCv( mon::Case& c, const M3& m, int type )
{
	cv::Mat out; switch( c.rng.i(0,2) ) { case 0: out.create(3,3,type); c.cls("plain"); break; case 1: { cv::Mat big((int)c.rng.i(4,9),(int)c.rng.i(4,9),type,cv::Scalar(77)); out=big(cv::Rect(1,1,3,3)); c.cls("part of a larger one"); break; } default: out=cv::Mat(3,3,type); c.cls("plain"); } for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) if( type==CV_64F ) out.at<double>(i,j)=(double)m[i][j]; else out.at<float>(i,j)=(float)m[i][j]; return out;
}
// the whole behaviour of a homography whose matrix is m (up to scale)
template<typename F> void acts( mon::Case& c, const char* key, const Homogr_<F>& H, const M3& m, LD tol )
{
	for( int k=0;k<3;k++ ) { P p{(LD)(F)c.rng.d(-5,5),(LD)(F)c.rng.d(-5,5)}; LD w=m[2][0]*p.x+m[2][1]*p.y+m[2][2]; LD sc=std::fabs(m[2][0]*p.x)+std::fabs(m[2][1]*p.y)+std::fabs(m[2][2]); if( std::fabs(w)<0.05L*sc ) continue; LD x=(m[0][0]*p.x+m[0][1]*p.y+m[0][2])/w,y=(m[1][0]*p.x+m[1][1]*p.y+m[1][2])/w; auto q=H*Point2d_<F>((F)p.x,(F)p.y); LD t=tol*200*(1+std::fabs(x)+std::fabs(y)); c.chkf(std::string(key)+"-point",std::fabs((LD)q.getX()-x)<=t&&std::fabs((LD)q.getY()-y)<=t,[&]( std::ostream& o ) { o<<q<<" expected "<<(double)x<<","<<(double)y; }); }
	if( condM(m)<1e3L ) { // lines: the image of a line goes through the images of its points
		P a{(LD)(F)c.rng.d(-5,5),(LD)(F)c.rng.d(-5,5)}, b{(LD)(F)(a.x+c.rng.d(1,3)),(LD)(F)(a.y+c.rng.d(1,3))}; auto im=[&]( P p, bool& ok ) { LD w=m[2][0]*p.x+m[2][1]*p.y+m[2][2]; LD sc=std::fabs(m[2][0]*p.x)+std::fabs(m[2][1]*p.y)+std::fabs(m[2][2]); ok=ok&&std::fabs(w)>0.1L*sc; return P{(m[0][0]*p.x+m[0][1]*p.y+m[0][2])/w,(m[1][0]*p.x+m[1][1]*p.y+m[1][2])/w}; }; bool ok=true; P ia=im(a,ok), ib=im(b,ok); if( ok&&ref::dist(ia,ib)>0.05L ) { auto l=H*Line2d_<F>(Point2d_<F>((F)a.x,(F)a.y),Point2d_<F>((F)b.x,(F)b.y)); auto v=l.get(); LD t=tol*1e5L*(1+ref::norm(ia)+ref::norm(ib)); for( P q: {ia,ib} ) c.chkf(std::string(key)+"-line",std::fabs((LD)v[0]*q.x+(LD)v[1]*q.y+(LD)v[2])<=t,[&]( std::ostream& o ) { o<<"distance "<<(double)((LD)v[0]*q.x+(LD)v[1]*q.y+(LD)v[2])<<" tol "<<(double)t; }); } }
}
template<typename F> void matrices( mon::Case& c )
{
	LD tol=sizeof(F)==4?2e-7L:1e-14L; M3 m=rndM3(c.rng), old=rndM3(c.rng); int type=c.rng.coin()?CV_64F:CV_32F; c.put("m="+str(m)+" old="+str(old)+(type==CV_64F?" 64F; ":" 32F; ")); cv::Mat mat=toCv(c,m,type), keep=mat.clone();
	auto minor=[]( const M3& q ) { return std::fabs(q[0][0]*q[1][1]-q[0][1]*q[1][0])<0.05L; }; if( condM(m)>1e4L||condM(old)>1e4L||minor(m)||minor(old) ) { c.skip("ill-conditioned"); return; }
	std::vector<std::vector<F>> vo(3,std::vector<F>(3)); for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) vo[i][j]=(F)old[i][j]; Homogr_<F> H(mat); c.chkf("cv-constructor",eqM(H,m,1,tol)||eqM(H,m,1/m[2][2],tol),[&]( std::ostream& o ) { o<<strM(H); }); acts(c,"cv-constructor",H,m,tol);
	Homogr_<F> G(vo); if( c.rng.coin(3) ) { acts(c,"before",G,old,tol); c.cls("used before the assignment"); } G=mat; c.chkf("cv-assign",eqM(G,m,1,tol)||eqM(G,m,1/m[2][2],tol),[&]( std::ostream& o ) { o<<strM(G); }); acts(c,"cv-assign",G,m,tol); c.chk("cv-assign-equals-constructor",G==H); c.chk("cv-source-kept",cv::norm(mat,keep,cv::NORM_INF)==0);
	{ auto Gi=G; Gi.inverse(); auto I=Gi*G; M3 id{}; for( int i=0;i<3;i++ ) id[i][i]=1; c.chkf("cv-assign-inverse",eqM(I,id,1,tol*1e6L),[&]( std::ostream& o ) { o<<strM(I); }); auto Gt=G; Gt.transpose(); }
	// writing to the source afterwards does not reach the homography
	mat=cv::Scalar(9); c.chk("independent-of-source",eqM(H,m,1,tol)||eqM(H,m,1/m[2][2],tol));
	// export
	for( int k=0;k<3;k++ ) { cv::Mat out; switch( c.rng.i(0,3) ) { case 0: break; case 1: out.create(3,3,CV_64F); break; case 2: out.create(5,2,CV_8UC3); break; default: out.create(3,3,CV_32F); out=cv::Scalar(5); } int ty=k==0?CV_64F:k==1?CV_32F:CV_64F; const auto& CH=H; if( k==2 ) CH.copyTo(out); else CH.copyTo(out,ty); bool ok=out.rows==3&&out.cols==3&&out.type()==ty; for( int i=0;ok&&i<3;i++ ) for( int j=0;j<3;j++ ) { ok=ok&&(ty==CV_64F?out.at<double>(i,j)==(double)H.value(i,j):out.at<float>(i,j)==(float)H.value(i,j)); } c.chk(k==1?"cv-export-float":"cv-export-double",ok); if( ok ) { Homogr_<F> B(out); c.chk("cv-round-trip",eqM(B,m,1/m[2][2]*(LD)H.value(2,2),ty==CV_32F?3e-7L:tol*4)||eqM(B,m,1/m[2][2],ty==CV_32F?3e-7L:tol*4)); } }
	{ cv::Mat out; for( int ty: {CV_8U,CV_32S,CV_16F,CV_64FC2,CV_32FC3} ) c.throws("export-type-refused",[&]{ H.copyTo(out,ty); }); }
	// refusals leave the object as it was
	{ auto before=strM(G); static const int sz[][2]={{3,2},{2,3},{4,4},{0,0},{1,9},{9,1},{3,4},{4,3}}; int k=(int)c.rng.i(0,7); c.throws("size-refused",[&]{ cv::Mat b(sz[k][0],sz[k][1],CV_64F,cv::Scalar(1)); G=b; }); c.throws("size-refused-constructor",[&]{ cv::Mat b(sz[k][0],sz[k][1],CV_32F,cv::Scalar(1)); Homogr_<F> q(b); }); static const int bt[]={CV_8U,CV_32S,CV_16S,CV_8UC3,CV_64FC2,CV_32FC3}; int t=bt[c.rng.i(0,5)]; c.throws("type-refused",[&]{ cv::Mat b(3,3,t,cv::Scalar(1)); G=b; }); c.chk("kept-after-refusal",strM(G)==before); }
	// nested containers
	{ auto go=[&]( auto s ) { using S=decltype(s); std::vector<std::vector<S>> v(3,std::vector<S>(3)); std::array<std::array<S,3>,3> a; M3 q; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) { q[i][j]=std::is_integral<S>::value?std::trunc(m[i][j]*5):m[i][j]; if( i==2&&j==2&&q[i][j]==0 ) q[i][j]=1; v[i][j]=a[i][j]=(S)q[i][j]; } Homogr_<F> h1(v), h2(a), h3=v; Homogr_<F> h4(vo); if( c.rng.coin() ) (void)(h4*Line2d_<F>((F)1,(F)2)); h4=v; Homogr_<F> h5(vo); h5=a; for( auto* h: {&h1,&h2,&h3,&h4,&h5} ) c.chkf("nested-containers",eqM(*h,q,1/q[2][2],sizeof(F)==4?1e-6L:1e-13L),[&]( std::ostream& o ) { o<<strM(*h); }); if( condM(q)<1e3L&&!minor(q) ) { acts(c,"nested",h4,q,tol); acts(c,"nested",h5,q,tol); } auto bad=v; switch( c.rng.i(0,4) ) { case 0: bad.pop_back(); break; case 1: bad.push_back(bad[0]); break; case 2: bad[(size_t)c.rng.i(0,2)].pop_back(); break; case 3: bad[(size_t)c.rng.i(0,2)].push_back(1); break; default: bad.clear(); } c.throws("nested-mis-sized",[&]{ Homogr_<F> x(bad); }); }; switch( c.rng.i(0,2) ) { case 0: go(1.f); break; case 1: go(1.); break; default: go(1); } }
	{ h2d::Hmatrix_<typ::IsEpipmat,F> E(keep); c.chkf("epipolar-matrix",eqM(E,m,1,tol)||eqM(E,m,1/m[2][2],tol)||eqM(E,m,1/m[2][1],tol*100),[&]( std::ostream& o ) { o<<strM(E); }); }
}
SECTION(matrix,4000) { switch( c.rng.i(0,2) ) { case 0: matrices<float>(c); break; case 1: matrices<double>(c); break; default: matrices<long double>(c); } }
// ---------------- polygons ----------------
template<typename F,typename BPT,bool CW,bool CL> void polygons( mon::Case& c )
{
	using S=typename bg::coordinate_type<BPT>::type; int n=gen::num(c.rng,0,9,30,300); std::vector<std::pair<S,S>> v; int guard=0; while( (int)v.size()<n&&guard++<200 ) { S x=sval<S>(c.rng), y=sval<S>(c.rng); bool far=true; for( auto& q:v ) far=far&&std::hypot((LD)q.first-x,(LD)q.second-y)>1e-2L*(1+1e-5L*std::fabs((LD)x)+1e-5L*std::fabs((LD)y)); if( far ) v.push_back({x,y}); } n=(int)v.size(); bool rep=n>1&&c.rng.coin(); bg::model::polygon<BPT,CW,CL> pol; for( auto& q:v ) { BPT b; bg::set<0>(b,q.first); bg::set<1>(b,q.second); pol.outer().push_back(b); c.in("p",+q.first,+q.second); } if( rep ) pol.outer().push_back(pol.outer().front()); if( c.rng.coin(3)&&n>2 ) { pol.inners().resize(1); for( auto& b: pol.outer() ) { BPT h; bg::set<0>(h,bg::get<0>(b)/2); bg::set<1>(h,bg::get<1>(b)/2); pol.inners()[0].push_back(h); } c.cls("hole"); } c.in("first-repeated",rep); size_t sz=pol.outer().size();
	auto same=[&]( const char* key, const auto& pl ) { const auto& g=std::as_const(pl).getPts(); if( !c.chkf(std::string(key)+"-size",g.size()==v.size(),[&]( std::ostream& o ) { o<<g.size()<<" points"; }) ) return; bool ok=true; int b=sizeof(F)==4?22:51; for( size_t i=0;i<v.size();i++ ) ok=ok&&carried(g[i].getX(),(LD)v[i].first,b)&&carried(g[i].getY(),(LD)v[i].second,b); c.chk(key,ok); };
	if( n==1 ) { c.cls("one point"); try { CPolyline_<F> q(pol); c.chk("one-point-closed",q.size()<=1); } catch( std::runtime_error& ) {} try { OPolyline_<F> q(pol); } catch( std::runtime_error& ) {} return; }
	CPolyline_<F> a(pol); same("closed-constructor",a); CPolyline_<F> old(std::vector<Point2d_<F>>{{(F)0,(F)0},{(F)10,(F)0},{(F)10,(F)10}}); if( c.rng.coin() ) { old.area(); old.length(); old.isConvex(); old.centroid(); } old=CPolyline_<F>(pol); same("closed-assigned",old); if( n>1 ) { c.chk("closed-assigned-measures",old.length()==a.length()&&old.size()==a.size()); LD L=0; for( int i=0;i<n;i++ ) L+=std::hypot((LD)v[i].first-v[(i+1)%n].first,(LD)v[i].second-v[(i+1)%n].second); c.near("closed-length",(LD)old.length(),L,(sizeof(F)==4?1e-4L:1e-10L)*(1+L)); }
	if( rep ) c.throws("closed-into-open-refused",[&]{ OPolyline_<F> o(pol); }); else { OPolyline_<F> o(pol); same("open-constructor",o); OPolyline_<F> oo(std::vector<Point2d_<F>>{{(F)0,(F)0},{(F)10,(F)0}}); oo.length(); oo=OPolyline_<F>(pol); same("open-assigned",oo); }
	c.chk("source-kept",pol.outer().size()==sz);
	if( n>2 ) { auto bad=pol; size_t k=(size_t)c.rng.i(0,n-1); bad.outer().insert(bad.outer().begin()+k,bad.outer()[k]); c.throws("repeated-point-refused",[&]{ CPolyline_<F> q(bad); }); }
}
SECTION(boost_polygon,4000)
{
	switch( c.rng.i(0,7) ) { case 0: polygons<double,BX<double>,true,true>(c); break; case 1: polygons<double,BX<float>,true,false>(c); break; case 2: polygons<double,BP<double>,false,true>(c); break; case 3: polygons<float,BX<double>,false,false>(c); break; case 4: polygons<float,BP<float>,true,true>(c); break; case 5: polygons<long double,BX<double>,true,true>(c); break; case 6: polygons<double,BX<int>,true,true>(c); break; default: polygons<double,BP<double>,true,false>(c); }
}
SECTION(cv_size,1500)
{
	int w=(int)c.rng.i(0,40), h=(int)c.rng.i(0,40); c.in("wh",w,h); cv::Mat im; if( w&&h ) im=cv::Mat(h,w,c.rng.coin()?CV_8UC3:CV_32F); else if( w||h ) im=cv::Mat(cv::Size(w,h),CV_8U); if( w&&h ) { auto r=getFRect<double>(im); auto pp=r.getPts(); c.chk("rectangle-of-image",pp.first.getX()==0&&pp.first.getY()==0&&pp.second.getX()==w&&pp.second.getY()==h); auto q=getFRect<float>(im); c.chk("rectangle-of-image-float",q.width()==w&&q.height()==h); img::Image<cv::Mat> I((size_t)w,(size_t)h); c.chk("image-size",I.cols()==w&&I.rows()==h&&I.getReal().cols==w&&I.getReal().rows==h); } else c.throws("empty-image-refused",[&]{ getFRect<double>(im); });
}
MON_MAIN
