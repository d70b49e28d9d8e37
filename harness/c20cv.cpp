// raster back-end: what is drawn lies on the object, and the whole object is drawn
#define HOMOG2D_USE_OPENCV
#include "opencv2/imgproc.hpp"
#include "opencv2/imgcodecs.hpp"
#include "opencv2/highgui.hpp"
#include "opencv2/calib3d.hpp"
#include "h2.hpp"
#include <list>
using namespace gen;
using ref::PI;
typedef img::Image<cv::Mat> Im;
struct Shape { std::vector<std::pair<P,P>> segs; void seg( P a, P b ) { segs.push_back({a,b}); } LD dist( P p ) const { LD d=1e9L; for( auto& s:segs ) d=std::min(d,s.first==s.second?ref::dist(p,s.first):ref::dSeg(p,s.first,s.second)); return d; } };
static bool centers=false;
static void addPoint( Shape& s, P p, img::PtStyle ps, int sz, int W, int H ) { if( !(p.x>=0&&p.x<W&&p.y>=0&&p.y<H) ) return; LD d=sz,t=std::round(0.7*sz); auto L=[&]( LD a,LD b,LD c,LD e ) { s.seg(p+P{a,b},p+P{c,e}); }; auto plus=[&]{ L(-d,0,d,0); L(0,-d,0,d); }; auto times=[&]{ L(-t,t,t,-t); L(t,t,-t,-t); }; switch( ps ) { case img::PtStyle::Plus: plus(); break; case img::PtStyle::Times: times(); break; case img::PtStyle::Star: plus(); times(); break; case img::PtStyle::Diam: L(-d,0,0,-d); L(0,-d,d,0); L(d,0,0,d); L(-d,0,0,d); break; case img::PtStyle::Squ: L(-t,t,t,t); L(t,t,t,-t); L(t,-t,-t,-t); L(-t,t,-t,-t); break; case img::PtStyle::Dot: for( int i=0;i<24;i++ ) s.seg(p+sz*P{cosl(i*PI/12),sinl(i*PI/12)},p+sz*P{cosl((i+1)*PI/12),sinl((i+1)*PI/12)}); if( centers ) plus(); break; } } // a circle shows its center when points are asked for
SECTION(raster,1500)
{
	auto& r=c.rng; int W=(int)r.i(60,300),H=(int)r.i(60,300); bool later=r.coin(); Im im; if( later ) im.setSize((size_t)W,(size_t)H); else if( r.coin(3) ) { cv::Mat ext(H,W,CV_8UC3,cv::Scalar(255,255,255)); im=Im(ext); } else im=Im((size_t)W,(size_t)H); c.in("size",W,H); c.chk("size",im.cols()==W&&im.rows()==H&&im.getReal().cols==W&&im.getReal().rows==H); bool white=true; for( int y=0;y<H&&white;y++ ) for( int x=0;x<W;x++ ) if( im.getReal().at<cv::Vec3b>(y,x)!=cv::Vec3b(255,255,255) ) { white=false; break; } c.chk("starts-white",white); if( r.coin(4) ) { im.clear(10,20,30); c.chk("clear-color",im.getReal().at<cv::Vec3b>(1,1)==cv::Vec3b(30,20,10)); im.clear(); c.chk("clear",im.getReal().at<cv::Vec3b>(1,1)==cv::Vec3b(255,255,255)); }
	img::DrawParams dp; int th=(int)r.i(1,4); dp.setThickness((uint8_t)th); img::Color col((uint8_t)r.i(0,120),(uint8_t)r.i(0,120),(uint8_t)r.i(0,120)); dp.setColor(col); auto ps=(img::PtStyle)r.i(0,5); int sz=(int)(2*r.i(2,7)+1); dp.setPointStyle(ps).setPointSize((uint8_t)sz); bool pts=r.coin(3); dp.showPoints(pts); centers=pts; c.in("thick",th); c.in("ps",(int)ps,sz,pts);
	auto g=[&]{ return P{(LD)r.d(-20,W+20),(LD)r.d(-20,H+20)}; }; Shape s; int k=(int)(c.idx%9); c.in("kind",k); P a=g(),b=g(); while( std::fabs(a.x-b.x)<3||std::fabs(a.y-b.y)<3 ) b=g(); inP(c,"a",a); inP(c,"b",b); static const char* nm[]={"point","segment","osegment","rect","circle","ellipse","cpolyline","opolyline","line"}; c.cls(nm[k]);
	auto mark=[&]( P p ) { if( pts ) addPoint(s,p,ps,sz,W,H); }; int how=(int)r.i(0,2); auto D=[&]( const auto& o ) { std::string t=str(o); if( how==0 ) o.draw(im,dp); else if( how==1 ) draw(im,o,dp); else im.draw(o,dp); c.chk("unchanged",str(o)==t); };
	switch( k )
	{
		case 0: addPoint(s,a,ps,sz,W,H); D(mk(a)); break;
		case 1: s.seg(a,b); mark(a); mark(b); D(Segment(mk(a),mk(b))); break;
		case 2: { s.seg(a,b); P u=(1/ref::dist(a,b))*(b-a),n{-u.y,u.x},q=b-8*u; s.seg(a-8*n,a+8*n); s.seg(q+8*n,b); s.seg(q-8*n,b); D(OSegment(mk(a),mk(b))); break; }
		case 3: { P x{std::min(a.x,b.x),std::min(a.y,b.y)},y{std::max(a.x,b.x),std::max(a.y,b.y)}; s.seg(x,P{x.x,y.y}); s.seg(x,P{y.x,x.y}); s.seg(y,P{x.x,y.y}); s.seg(y,P{y.x,x.y}); mark(x); mark(y); D(FRect(mk(a),mk(b))); break; }
		case 4: { LD R=r.d(3,80); c.in("r",R); for( int i=0;i<90;i++ ) s.seg(a+R*P{cosl(i*PI/45),sinl(i*PI/45)},a+R*P{cosl((i+1)*PI/45),sinl((i+1)*PI/45)}); if( pts ) addPoint(s,a,img::PtStyle::Plus,sz,W,H); D(Circle(mk(a),(NT)R)); break; }
		case 5: { LD A=r.d(15,80),B=A*r.d(0.4,0.9),t=r.d(-3,3); c.in("ABt",A,B,t); auto f=[&]( int i ) { LD w=i*PI/60; return a+ref::rot(P{A*cosl(w),B*sinl(w)},t); }; for( int i=0;i<120;i++ ) s.seg(f(i),f(i+1)); D(Ellipse(mk(a),(NT)A,(NT)B,(NT)t)); break; }
		case 6: case 7: { Poly v; int n=(int)r.i(2,6); while( (int)v.size()<n ) { P p=g(); if( v.empty()||(ref::dist(p,v.back())>2&&ref::dist(p,v[0])>2) ) v.push_back(p); } inV(c,"v",v); int ns=k==6?n:n-1; if( n==2 ) ns=1; for( int i=0;i<ns;i++ ) { s.seg(v[i],v[(i+1)%n]); mark(v[i]); mark(v[(i+1)%n]); } if( pts ) addPoint(s,v[0],(img::PtStyle)(((int)ps+1)%6),sz,W,H); if( k==6 ) D(CPolyline(mkv(v))); else D(OPolyline(mkv(v))); break; }
		default: { P d=b-a; s.seg(a-1000*d,a+1000*d); D(Line2d(mk(a),mk(b))); }
	}
	// every drawn pixel is on the object
	const cv::Mat& m=im.getReal(); auto drawn=[&]( int x, int y ) { return x>=0&&y>=0&&x<W&&y<H&&m.at<cv::Vec3b>(y,x)!=cv::Vec3b(255,255,255); }; long nb=0; LD far=0; int fx=0,fy=0; for( int y=0;y<H;y++ ) for( int x=0;x<W;x++ ) if( drawn(x,y) ) { nb++; LD d=s.dist(P{(LD)x,(LD)y}); if( d>far ) { far=d; fx=x; fy=y; } } c.chkf("only-the-object",far<=th/2.0L+6,[&](std::ostream&o){ o<<"pixel "<<fx<<","<<fy<<" at "<<far<<" of the object"; });
	// the whole object is drawn
	bool all=true; P miss; for( auto& q: s.segs ) { LD L=ref::dist(q.first,q.second); int n=(int)std::min((LD)4000,L/2)+1; P u=q.second-q.first; if( k==8 ) { n=4000; } for( int i=0;i<=n&&all;i++ ) { P p=q.first+((LD)i/n)*u; if( p.x<5||p.y<5||p.x>W-6||p.y>H-6 ) continue; bool ok=false; int X0=(int)p.x,Y0=(int)p.y; for( int dx=-3;dx<=4&&!ok;dx++ ) for( int dy=-3;dy<=4;dy++ ) if( drawn(X0+dx,Y0+dy) ) { ok=true; break; } if( !ok ) { all=false; miss=p; } } } c.chkf("whole-object",all,[&](std::ostream&o){ o<<"nothing drawn near "<<str(miss); });
	if( nb>0&&!pts&&(k==0||k==1||k==8) ) { int dev=0; for( int y=0;y<H;y++ ) for( int x=0;x<W;x++ ) if( drawn(x,y) ) { auto v=m.at<cv::Vec3b>(y,x); dev=std::max({dev,(int)(v[0]<col.b?col.b-v[0]:0),(int)(v[1]<col.g?col.g-v[1]:0),(int)(v[2]<col.r?col.r-v[2]:0)}); } c.chk("color",dev<=2); } // between the color and white
	c.in("pixels",nb);
	if( r.coin(6) ) { std::string fn=std::string(getenv("VERIF_SCRATCH")?getenv("VERIF_SCRATCH"):"/tmp")+"/c20cv_"+std::to_string(getpid())+".png"; im.write(fn); cv::Mat b=cv::imread(fn); c.chk("file",b.rows==H&&b.cols==W&&cv::norm(b,m,cv::NORM_INF)==0); remove(fn.c_str()); }
}
SECTION(shared_scene,300) // what is drawn by a set is the union of what is drawn alone
{
	auto& r=c.rng; int W=150,H=120; Im all((size_t)W,(size_t)H); std::vector<Segment> v; cv::Mat want(H,W,CV_8UC3,cv::Scalar(255,255,255)); int n=(int)r.i(1,5); for( int i=0;i<n;i++ ) { P a{(LD)r.i(0,149),(LD)r.i(0,119)},b{(LD)r.i(0,149),(LD)r.i(0,119)}; if( ref::dist(a,b)<2 ) b=a+P{5,3}; inP(c,"a",a); inP(c,"b",b); v.push_back(Segment(mk(a),mk(b))); Im one((size_t)W,(size_t)H); v.back().draw(one); for( int y=0;y<H;y++ ) for( int x=0;x<W;x++ ) if( one.getReal().at<cv::Vec3b>(y,x)!=cv::Vec3b(255,255,255) ) want.at<cv::Vec3b>(y,x)=cv::Vec3b(0,0,0); }
	draw(all,v); bool ok=true; for( int y=0;y<H;y++ ) for( int x=0;x<W;x++ ) ok=ok&&((all.getReal().at<cv::Vec3b>(y,x)!=cv::Vec3b(255,255,255))==(want.at<cv::Vec3b>(y,x)!=cv::Vec3b(255,255,255))); c.chk("union",ok);
}
MON_MAIN
