#include "h2.hpp"
#include <list>
#include <array>
using namespace gen;
using ref::PI;
// ---- strict reader for the XML subset an SVG drawing may use: throws std::string on anything ill-formed ----
struct El { std::string name; std::vector<std::pair<std::string,std::string>> at; std::string text; int depth=0; const std::string* get( const std::string& n ) const { for( auto& a:at ) if( a.first==n ) return &a.second; return nullptr; } };
struct Xml
{
	std::string s; size_t p=0; std::vector<El> els; // document order
	explicit Xml( std::string x ): s(std::move(x)) { ws(); elem(0); ws(); if( p!=s.size() ) err("trailing data"); }
	[[noreturn]] void err( const std::string& m ) { throw m+" near: "+s.substr(p>40?p-40:0,80); }
	void ws() { while( p<s.size()&&std::isspace((unsigned char)s[p]) ) p++; }
	static bool nm( char c ) { return std::isalnum((unsigned char)c)||c=='-'||c=='_'||c==':'||c=='.'; }
	std::string name() { size_t b=p; if( p>=s.size()||!(std::isalpha((unsigned char)s[p])||s[p]=='_') ) err("name expected"); while( p<s.size()&&nm(s[p]) ) p++; return s.substr(b,p-b); }
	std::string ent() { size_t e=s.find(';',p); if( e==std::string::npos||e-p>9 ) err("bad entity"); std::string n=s.substr(p+1,e-p-1); p=e+1; if( n=="amp" ) return "&"; if( n=="lt" ) return "<"; if( n=="gt" ) return ">"; if( n=="quot" ) return "\""; if( n=="apos" ) return "'"; if( n[0]=='#' ) { int v=n[1]=='x'?std::stoi(n.substr(2),nullptr,16):std::stoi(n.substr(1)); if( v>0&&v<128 ) return std::string(1,(char)v); return "?"; } err("unknown entity "+n); }
	void elem( int d )
	{
		if( p>=s.size()||s[p]!='<' ) err("'<' expected"); p++; size_t me=els.size(); els.push_back(El()); els[me].depth=d; els[me].name=name();
		for(;;) { size_t b=p; ws(); if( p>=s.size() ) err("unterminated tag"); if( s[p]=='/' ) { p++; if( p>=s.size()||s[p]!='>' ) err("'>' expected"); p++; return; } if( s[p]=='>' ) { p++; break; } if( b==p ) err("space expected between attributes"); std::string n=name(); if( els[me].get(n) ) err("duplicate attribute "+n); if( p>=s.size()||s[p]!='=' ) err("'=' expected"); p++; if( p>=s.size()||(s[p]!='"'&&s[p]!='\'') ) err("quote expected"); char q=s[p++]; std::string v; while( p<s.size()&&s[p]!=q ) { if( s[p]=='<' ) err("'<' in attribute"); if( s[p]=='&' ) v+=ent(); else v+=s[p++]; } if( p>=s.size() ) err("unterminated attribute"); p++; els[me].at.push_back({n,v}); }
		for(;;) { if( p>=s.size() ) err("unterminated element "+els[me].name); if( s[p]=='&' ) { auto e=ent(); els[me].text+=e; } else if( s[p]=='<' ) { if( p+1<s.size()&&s[p+1]=='/' ) { p+=2; std::string n=name(); if( n!=els[me].name ) err("mismatched end tag "+n); ws(); if( p>=s.size()||s[p]!='>' ) err("'>' expected"); p++; return; } elem(d+1); } else { if( (unsigned char)s[p]<32&&s[p]!='\n'&&s[p]!='\t'&&s[p]!='\r' ) err("control character"); if( s.compare(p,3,"]]>")==0 ) err("]]> in text"); els[me].text+=s[p++]; } }
	}
};
// ---- what a drawing should contain ----
struct Style { int r=125,g=80,b=80; int thick=1; int ptSize=4,ptDelta=5; img::PtStyle ps=img::PtStyle::Plus; bool pts=false, idx=false, ang=false; int font=20; std::string attr; }; // default color is set at startup from the library's documented default
static bool sameStyle( const Style& a, const Style& b ) { return a.r==b.r&&a.g==b.g&&a.b==b.b&&a.thick==b.thick&&a.ptSize==b.ptSize&&a.ptDelta==b.ptDelta&&a.ps==b.ps&&a.pts==b.pts&&a.idx==b.idx&&a.ang==b.ang&&a.font==b.font&&a.attr==b.attr; }
struct Ex { std::string name; std::vector<LD> num; Style st; std::string text; bool plain=false; bool intText=false; LD slack=0; };
static bool num( const std::string& s, LD& v ) { const char* b=s.c_str(); char* e; v=std::strtold(b,&e); return e!=b&&*e==0; }
static bool nearN( LD got, LD ex, LD slack=0 ) { return std::fabs(got-ex)<=6e-6L*std::fabs(ex)+1e-5L+slack; }
typedef img::Image<img::SvgImage> Im;
static std::string svg( const Im& im ) { std::ostringstream o; o<<im; return o.str(); }
static std::string rgb( const Style& s ) { std::ostringstream o; o<<"rgb("<<s.r<<","<<s.g<<","<<s.b<<")"; return o.str(); }
// returns an empty string when the element is the expected one
static std::string match( const El& e, const Ex& x )
{
	if( e.name!=x.name ) return "element is "+e.name; auto N=[&]( const char* a, LD v ) { auto p=e.get(a); LD g; if( !p||!num(*p,g) ) return std::string("attribute ")+a+" missing or not a number"; if( !nearN(g,v,x.slack) ) return std::string("attribute ")+a+" is "+*p+", expected "+str((double)v); return std::string(); };
	std::string r; size_t known=0; auto need=[&]( const char* a, LD v ) { known++; if( r.empty() ) r=N(a,v); };
	if( x.name=="text" )
	{
		if( x.plain ) { auto a=e.get("x"),b=e.get("y"); LD p,q; if( !a||!b||!num(*a,p)||!num(*b,q)||std::fabs(p-x.num[0])>1.0001L||std::fabs(q-x.num[1])>1.0001L ) return "index position"; if( e.text!=x.text ) return "index text "+e.text; return ""; }
		need("x",x.num[0]); need("y",x.num[1]); if( !r.empty() ) return r; auto f=e.get("font-size"); if( !f||*f!=std::to_string(x.st.font)+"px" ) return "font size"; char c[16]; snprintf(c,16,"#%02x%02x%02x",x.st.r,x.st.g,x.st.b); auto k=e.get("fill"); if( !k||*k!=c ) return "text color "+(k?*k:"")+" expected "+c; if( x.intText ) { LD g; if( !num(e.text,g)||std::fabs(g-x.num[2])>1e-5L ) return "angle "+e.text+" expected "+str((double)x.num[2]); } else if( e.text!=x.text ) return "text is '"+e.text+"'"; return "";
	}
	if( x.name=="line" ) { LD v[4]; const char* n[]={"x1","y1","x2","y2"}; for( int i=0;i<4;i++ ) { auto p=e.get(n[i]); if( !p||!num(*p,v[i]) ) return std::string("attribute ")+n[i]; known++; } auto ok=[&]( LD a,LD b,LD c,LD d ) { return nearN(a,x.num[0],x.slack)&&nearN(b,x.num[1],x.slack)&&nearN(c,x.num[2],x.slack)&&nearN(d,x.num[3],x.slack); }; if( !ok(v[0],v[1],v[2],v[3])&&!ok(v[2],v[3],v[0],v[1]) ) { std::ostringstream o; o<<"line from "<<v[0]<<","<<v[1]<<" to "<<v[2]<<","<<v[3]<<" expected "<<x.num[0]<<","<<x.num[1]<<" "<<x.num[2]<<","<<x.num[3]; return o.str(); } }
	else if( x.name=="circle" ) { need("cx",x.num[0]); need("cy",x.num[1]); need("r",x.num[2]); }
	else if( x.name=="rect" ) { need("x",x.num[0]); need("y",x.num[1]); need("width",x.num[2]); need("height",x.num[3]); }
	else if( x.name=="ellipse" ) { need("cx",x.num[0]); need("cy",x.num[1]); need("rx",x.num[2]); need("ry",x.num[3]); auto t=e.get("transform"); known++; double a,b,c; if( !t||sscanf(t->c_str(),"rotate(%lf,%lf,%lf)",&a,&b,&c)!=3 ) return "ellipse rotation missing"; LD da=sinl((a-(double)x.num[4])*PI/180); if( std::fabs(da)>2e-4L&&!nearN(x.num[2],x.num[3],1e-3L) ) return "ellipse rotated by "+str(a)+" expected "+str((double)x.num[4]); if( !nearN(b,x.num[0])||!nearN(c,x.num[1]) ) return "ellipse rotation center"; }
	else if( x.name=="polygon"||x.name=="polyline" ) { auto p=e.get("points"); known++; if( !p ) return "no points"; std::istringstream f(*p); std::vector<LD> v; std::string t; while( f>>t ) { auto k=t.find(','); LD a,b; if( k==std::string::npos||!num(t.substr(0,k),a)||!num(t.substr(k+1),b) ) return "bad point "+t; v.push_back(a); v.push_back(b); } if( v.size()!=x.num.size() ) return "number of points "+std::to_string(v.size()/2); for( size_t i=0;i<v.size();i++ ) if( !nearN(v[i],x.num[i]) ) return "point "+std::to_string(i/2)+" of "+*p; }
	if( !r.empty() ) return r; auto s=e.get("stroke"); if( !s||*s!=rgb(x.st) ) return "color "+(s?*s:"none")+" expected "+rgb(x.st); auto w=e.get("stroke-width"); if( !w||*w!=std::to_string(x.st.thick) ) return "thickness "+(w?*w:"none"); known+=2;
	bool closedShape=x.name!="line"; auto fl=e.get("fill"); bool userFill=x.st.attr.find("fill=")!=std::string::npos; if( closedShape&&!userFill&&(!fl||*fl!="none") ) return "filled"; if( !x.plain&&!x.st.attr.empty() ) { std::istringstream f(x.st.attr); std::string t; while( f>>t ) { auto k=t.find('='); auto v=e.get(t.substr(0,k)); if( !v||*v!=t.substr(k+2,t.size()-k-3) ) return "attribute "+t+" missing"; } }
	for( auto& a: e.at ) { static const std::set<std::string> ok={"x1","y1","x2","y2","cx","cy","r","rx","ry","x","y","width","height","points","transform","stroke","stroke-width","fill"}; if( !ok.count(a.first)&&(x.plain||x.st.attr.find(a.first+"=")==std::string::npos) ) return "unexpected attribute "+a.first; } if( fl&&!closedShape&&!userFill ) return "unexpected fill"; return "";
}
// one random style; applied to dp through the public setters
static Style rndStyle( mon::Case& c, const Style& from, img::DrawParams& dp )
{
	Style s=from; auto& r=c.rng; int n=(int)r.i(0,5); for( int k=0;k<n;k++ ) switch( r.i(0,9) )
	{
		case 0: s.r=(int)r.i(0,255); s.g=r.coin(3)?(int)r.i(0,15):(int)r.i(0,255); s.b=(int)r.i(0,255); if( r.coin() ) dp.setColor((uint8_t)s.r,(uint8_t)s.g,(uint8_t)s.b); else dp.setColor(img::Color((uint8_t)s.r,(uint8_t)s.g,(uint8_t)s.b)); break;
		case 1: s.thick=(int)r.i(0,255); dp.setThickness((uint8_t)s.thick); break;
		case 2: s.ps=(img::PtStyle)r.i(0,5); dp.setPointStyle(s.ps); break;
		case 3: s.ptSize=s.ptDelta=(int)(2*r.i(0,20)+1); dp.setPointSize((uint8_t)s.ptSize); break;
		case 4: s.pts=r.coin(); dp.showPoints(s.pts); break;
		case 5: s.idx=r.coin(); dp.showIndex(s.idx); break;
		case 6: s.ang=r.coin(3); dp.showAngles(s.ang); break;
		case 7: s.font=(int)r.i(2,60); dp.setFontSize(s.font); break;
		case 8: { static const char* a[]={"","fill=\"red\"","id=\"k12\"","stroke-dasharray=\"4\" opacity=\"0.5\"","class=\"c1\" fill=\"rgb(1,2,3)\"","fill-opacity=\"0.3\""}; s.attr=a[r.i(0,5)]; dp.setAttrString(s.attr); break; }
		default: break;
	}
	std::ostringstream o; o<<"style="<<s.r<<","<<s.g<<","<<s.b<<" t"<<s.thick<<" ps"<<(int)s.ps<<" sz"<<s.ptSize<<" pts"<<s.pts<<" idx"<<s.idx<<" ang"<<s.ang<<" f"<<s.font<<" ["<<s.attr<<"]; "; c.put(o.str()); return s;
}
struct Scene { std::vector<Ex> ex; int W=500,H=500; };
static void exLine( Scene& s, P a, P b, const Style& st, bool plain=false, LD slack=0 ) { Ex e; e.name="line"; e.num={a.x,a.y,b.x,b.y}; e.st=st; e.plain=plain; e.slack=slack; s.ex.push_back(e); }
static void exPoint( Scene& s, P p, const Style& st )
{
	if( !(p.x>=0&&p.x<s.W&&p.y>=0&&p.y<s.H) ) return; LD d=st.ptDelta, t=std::round(0.7*st.ptDelta); LD sl=1e-4L; auto L=[&]( LD a, LD b, LD c2, LD e ) { exLine(s,p+P{a,b},p+P{c2,e},st,false,sl); };
	auto plus=[&]{ L(-d,0,d,0); L(0,-d,0,d); }; auto times=[&]{ L(-t,t,t,-t); L(t,t,-t,-t); };
	switch( st.ps ) { case img::PtStyle::Dot: { Ex e; e.name="circle"; e.num={p.x,p.y,(LD)st.ptSize}; e.st=st; e.slack=1e-4L; s.ex.push_back(e); break; } case img::PtStyle::Plus: plus(); break; case img::PtStyle::Times: times(); break; case img::PtStyle::Star: plus(); times(); break;
		case img::PtStyle::Diam: L(-d,0,0,-d); L(0,-d,d,0); L(d,0,0,d); L(-d,0,0,d); break; case img::PtStyle::Squ: L(-t,t,t,t); L(t,t,t,-t); L(t,-t,-t,-t); L(-t,t,-t,-t); break; }
}
static void exText( Scene& s, const std::string& t, P p, const Style& st ) { Ex e; e.name="text"; e.num={p.x,p.y}; e.text=t; e.st=st; e.slack=1e-4L; s.ex.push_back(e); }
// ---- objects ----
static P scr( mon::Rng& r, const Scene& s ) { switch( r.i(0,9) ) { case 0: return P{(LD)(float)r.d(-300,900),(LD)(float)r.d(-300,900)}; case 1: return P{(LD)r.i(-3,s.W+3),(LD)r.i(-3,s.H+3)}; case 2: { LD xs[]={0,(LD)s.W-1,(LD)s.W,-1,(LD)(s.W-0.25)}; return P{xs[r.i(0,4)],(LD)(float)r.d(0,s.H)}; } default: return P{(LD)(float)r.d(0,s.W),(LD)(float)r.d(0,s.H)}; } }
template<typename O> std::string text( const O& o ) { std::ostringstream s; s<<std::setprecision(17)<<o; return s.str(); }
static const Style* DEF=nullptr; // the current default style, according to the model
template<typename O,typename DRAW> void doDraw( mon::Case& c, const char* key, const O& o, DRAW d ) { std::string b=text(o); d(o); c.chk(std::string("unchanged-")+key,text(o)==b,b); }
template<typename F,typename DRAW> void drawObject( mon::Case& c, Scene& s, const Style& st, int k, DRAW d )
{
	auto& r=c.rng; auto M=[]( P p ) { return Point2d_<F>((F)p.x,(F)p.y); }; auto g=[&]{ P p=scr(r,s); p={(LD)(F)p.x,(LD)(F)p.y}; return p; }; auto two=[&]( P& a, P& b ) { a=g(); do b=g(); while( std::fabs(a.x-b.x)<1||std::fabs(a.y-b.y)<1 ); if( r.coin(5)&&k!=3 ) ( r.coin()?b.x=a.x:b.y=a.y ); inP(c,"a",a); inP(c,"b",b); };
	switch( k )
	{
		case 0: { P a=g(); inP(c,"pt",a); exPoint(s,a,st); doDraw(c,"point",M(a),d); break; }
		case 1: { P a,b; two(a,b); auto o=Segment_<F>(M(a),M(b)); exLine(s,a,b,st); if( st.pts ) { auto q=o.getPts(); exPoint(s,rd(q.first),st); exPoint(s,rd(q.second),st); } doDraw(c,"segment",o,d); break; }
		case 2: { P a,b; two(a,b); exLine(s,a,b,st); P u=(1/ref::dist(a,b))*(b-a), n{-u.y,u.x}; P q=b-8*u; LD sl=1e-3L; exLine(s,a-8*n,a+8*n,st,true,sl); // first the tail, then the two sides of the head (any order)
			Ex e; exLine(s,q+8*n,b,st,true,sl); exLine(s,q-8*n,b,st,true,sl); s.ex[s.ex.size()-1].text=s.ex[s.ex.size()-2].text="head"; doDraw(c,"osegment",OSegment_<F>(M(a),M(b)),d); break; }
		case 3: { P a,b; two(a,b); Ex e; e.name="rect"; e.num={std::min(a.x,b.x),std::min(a.y,b.y),std::fabs(a.x-b.x),std::fabs(a.y-b.y)}; e.st=st; s.ex.push_back(e); doDraw(c,"rect",FRect_<F>(M(a),M(b)),d); break; }
		case 4: { P a=g(); LD R=(LD)(F)r.d(0.5,300); inP(c,"center",a); c.in("r",R); Ex e; e.name="circle"; e.num={a.x,a.y,R}; e.st=st; s.ex.push_back(e); doDraw(c,"circle",Circle_<F>(M(a),(F)R),d); break; }
		case 5: { P a=P{(LD)(F)r.d(-50,100),(LD)(F)r.d(-50,100)}; LD A=(LD)(F)r.d(20,200),B=(LD)(F)(A*r.d(0.3,0.9)),t=r.coin(3)?(LD)r.i(-3,3)*PI/4:(LD)r.d(-3,3); inP(c,"center",a); c.in("ABt",A,B,t); auto o=Ellipse_<double>(Point2d_<double>((double)a.x,(double)a.y),(double)A,(double)B,(double)t); Ex e; e.name="ellipse"; e.num={a.x,a.y,A,B,(LD)(double)t*180/PI}; e.st=st; e.slack=1e-4L; s.ex.push_back(e); doDraw(c,"ellipse",o,d); break; }
		case 6: case 7:
		{
			std::vector<Point2d_<F>> v; Poly w; int n=gen::num(r,2,8); while( (int)v.size()<n ) { P p=g(); bool dup=false; for( auto& q:w ) dup=dup||ref::dist(p,q)<0.5L; if( !dup ) { w.push_back(p); v.push_back(M(p)); } } inV(c,"v",w); bool cl=k==6; Ex e; e.name=cl?"polygon":"polyline"; for( auto& p:w ) { e.num.push_back(p.x); e.num.push_back(p.y); } e.st=st; s.ex.push_back(e);
			if( st.idx ) for( size_t i=0;i<w.size();i++ ) { Ex t; t.name="text"; t.plain=true; t.num={w[i].x,w[i].y}; t.text=std::to_string(i); s.ex.push_back(t); } if( st.pts ) for( auto& p:w ) exPoint(s,p,st);
			if( st.ang ) { int m=(int)w.size(); int ns=cl?m:m-1; for( int i=0;i+1<ns;i++ ) { P d1=w[(i+1)%m]-w[i%m], d2=w[(i+2)%m]-w[(i+1)%m]; Ex t; t.name="text"; t.intText=true; t.slack=1e-4L; t.num={w[i+1].x,w[i+1].y,atan2l(d1.x*d2.y-d1.y*d2.x,ref::dot(d1,d2))*180/PI}; t.st=*DEF; s.ex.push_back(t); } }
			if( cl ) doDraw(c,"cpolyline",CPolyline_<F>(v),d); else doDraw(c,"opolyline",OPolyline_<F>(v),d); break;
		}
		default:
		{
			P a,b; k=8; two(a,b); Line2d_<F> l(M(a),M(b)); // clipped to the image
			LD w=s.W-1,h=s.H-1; P dd=b-a; std::vector<P> hit; LD tmin=-1e30L,tmax=1e30L; bool meet=true; LD lo[2]={0,0},hi[2]={w,h},p0[2]={a.x,a.y},dv[2]={dd.x,dd.y}; for( int i=0;i<2;i++ ) { if( dv[i]==0 ) { if( p0[i]<lo[i]||p0[i]>hi[i] ) meet=false; } else { LD t1=(lo[i]-p0[i])/dv[i],t2=(hi[i]-p0[i])/dv[i]; if( t1>t2 ) std::swap(t1,t2); tmin=std::max(tmin,t1); tmax=std::min(tmax,t2); } } if( tmin>tmax||s.W<2||s.H<2 ) meet=false; // an image of a single row or column has no area to cross
			LD mn=1e30L; for( P q: {P{0,0},P{w,0},P{0,h},P{w,h}} ) mn=std::min(mn,std::fabs(ref::crs(a,b,q))/ref::norm(dd)); if( mn<0.05L || (dd.x==0&&(std::fabs(a.x)<0.01L||std::fabs(a.x-w)<0.01L)) || (dd.y==0&&(std::fabs(a.y)<0.01L||std::fabs(a.y-h)<0.01L)) ) { c.cls("line through a corner: left out"); break; }
			if( meet ) { Style t=st; exLine(s,a+tmin*dd,a+tmax*dd,t,false,sizeof(F)==4?0.02L*1000/ref::norm(dd)*1: 1e-3L); if( sizeof(F)==4 ) s.ex.back().slack=std::max((LD)0.05L,60/ref::norm(dd)*0.05L); } c.cls(meet?"line:meets":"line:misses"); doDraw(c,"line",l,d);
		}
	}
}
static void compare( mon::Case& c, const Scene& s, const Im& im )
{
	std::string doc=svg(im); try
	{
		Xml x(doc); c.chk("well-formed",true); if( !c.chk("root",!x.els.empty()&&x.els[0].name=="svg"&&x.els[0].get("xmlns")&&*x.els[0].get("xmlns")=="http://www.w3.org/2000/svg") ) return; auto w=x.els[0].get("width"),h=x.els[0].get("height"); c.chk("size",w&&h&&*w==std::to_string(s.W)&&*h==std::to_string(s.H));
		std::vector<El> got; for( size_t i=1;i<x.els.size();i++ ) if( x.els[i].name!="g"&&x.els[i].name!="style" ) got.push_back(x.els[i]);
		if( !c.chkf("element-count",got.size()==s.ex.size(),[&](std::ostream&o){ o<<got.size()<<" elements, expected "<<s.ex.size()<<": "<<doc.substr(0,1500); }) ) return;
		auto body=[&]( size_t i ) { std::string t=got[i].name; for( auto& a: got[i].at ) t+=" "+a.first+"="+a.second; return t; };
		for( size_t i=0;i<got.size();i++ ) { std::string m=match(got[i],s.ex[i]); if( !m.empty()&&s.ex[i].text=="head"&&i+1<got.size()&&s.ex[i+1].text=="head"&&match(got[i],s.ex[i+1]).empty()&&match(got[i+1],s.ex[i]).empty() ) { i++; continue; } if( !c.chkf("element-"+s.ex[i].name,m.empty(),[&](std::ostream&o){ o<<"element "<<i<<": "<<m<<" | "<<body(i); }) ) return; }
	}
	catch( const std::string& e ) { c.chkf("well-formed",false,[&](std::ostream&o){ o<<e; }); }
}
static Style libDefault() { Style s; img::DrawParams d; s.r=d.color().r; s.g=d.color().g; s.b=d.color().b; return s; }
SECTION(scene,6000)
{
	img::DrawParams::resetDefault(); Style factory=libDefault(), def=factory; DEF=&def; Scene s; bool own=c.rng.coin(); Im im; if( own ) { if( c.rng.coin(8) ) { s.W=(int)c.rng.i(0,4); s.H=(int)c.rng.i(0,4); } else { s.W=(int)c.rng.i(3,900); s.H=(int)c.rng.i(3,900); } im.setSize((size_t)s.W,(size_t)s.H); } else if( c.rng.coin() ) { s.W=300; s.H=200; im.setSize(std::make_pair(300,200)); } c.in("size",s.W,s.H); c.chk("image-size",im.size()==std::make_pair((size_t)s.W,(size_t)s.H)&&im.cols()==s.W&&im.rows()==s.H);
	struct Keep { img::DrawParams dp; Style st; }; std::vector<Keep> kept; int n=(int)c.rng.i(1,8);
	for( int i=0;i<n;i++ )
	{
		if( c.rng.coin(6) ) { img::DrawParams d; Style t=rndStyle(c,def,d); d.setDefault(); def=t; c.put("setDefault; "); c.cls("setDefault"); } if( c.rng.coin(12) ) { img::DrawParams::resetDefault(); def=factory; c.put("resetDefault; "); c.cls("resetDefault"); } if( c.rng.coin(25) ) { switch( c.rng.i(0,3) ) { case 0: im.clear(); break; case 1: im.clear((uint8_t)c.rng.i(0,255)); break; case 2: im.clear(10,20,30); break; default: im.clear(img::Color(1,2,3)); } s.ex.clear(); c.put("clear; "); }
		bool useDef=c.rng.coin(4); Style st=def; img::DrawParams dp; if( !useDef ) { if( !kept.empty()&&c.rng.coin(4) ) { auto& k=c.rng.pick(kept); dp=k.dp; st=k.st; c.put("kept style; "); } else { st=rndStyle(c,def,dp); kept.push_back({dp,st}); } } else c.put("default; ");
		int k=(int)c.rng.i(0,9), how=(int)c.rng.i(0,2); c.in("draw",k,how); if( k==9 )
		{
			static const char* tx[]={"abc","a b","a<b","x & y","\"quoted\"","<b>","1 > 0","&amp;","","]]>","100%"}; std::string t=tx[c.rng.i(0,10)]; P p=scr(c.rng,s); c.put("text="+t+"; "); exText(s,t,p,st); if( how==0 ) { if( useDef ) drawText(im,t,mk(p)); else drawText(im,t,mk(p),dp); } else { if( useDef ) im.drawText(t,Point2d_<float>(mk(p)),img::DrawParams()); else im.drawText(t,Point2d_<float>(mk(p)),dp); } c.cls("text"); continue;
		}
		auto d=[&]( const auto& o ) { if( how==0 ) { if( useDef ) o.draw(im); else o.draw(im,dp); } else if( how==1 ) { if( useDef ) draw(im,o); else draw(im,o,dp); } else { if( useDef ) im.draw(o); else im.draw(o,dp); } }; if( c.rng.coin(4) ) drawObject<float>(c,s,st,k,d); else drawObject<NT>(c,s,st,k,d);
	}
	compare(c,s,im); std::string a=svg(im); std::string fn=std::string(getenv("VERIF_SCRATCH")?getenv("VERIF_SCRATCH"):"/tmp")+"/c20_"+std::to_string(getpid())+".svg"; if( c.rng.coin(8) ) { im.write(fn); std::ifstream f(fn); std::stringstream b; b<<f.rdbuf(); c.chk("file-same",b.str()==a); f.close(); remove(fn.c_str()); } img::DrawParams::resetDefault();
}
// containers, pairs and per-index parameters
SECTION(containers,3000)
{
	img::DrawParams::resetDefault(); Style def=libDefault(); DEF=&def; Scene s; Im im; img::DrawParams dp; Style st=rndStyle(c,def,dp); if( c.rng.coin() ) { dp.showIndex(); st.idx=true; } st.ang=false; dp.showAngles(false); int n=(int)c.rng.i(0,6), k=(int)c.rng.i(0,6); c.in("kind",k,n); std::vector<Style> per; std::vector<img::DrawParams> pdp; bool fn=c.rng.coin(3); for( int i=0;i<n;i++ ) { img::DrawParams q; Style z=def; if( fn ) z=rndStyle(c,def,q); z.ang=false; q.showAngles(false); per.push_back(z); pdp.push_back(q); }
	auto M=[]( P p ) { return mk(p); }; auto go=[&]( auto& v, auto idx ) { auto w=v; std::list<typename std::decay_t<decltype(v)>::value_type> l(v.begin(),v.end()); (void)idx; if( fn ) { std::function<img::DrawParams(int)> f=[&]( int i ) { return pdp.at((size_t)i); }; draw(im,v,f); } else if( c.rng.coin(3) ) draw(im,l,dp); else draw(im,v,dp); bool same=v.size()==w.size(); for( size_t i=0;same&&i<v.size();i++ ) same=text(v[i])==text(w[i]); c.chk("unchanged",same); };
	auto S=[&]( int i )->const Style& { return fn?per[i]:st; };
	switch( k )
	{
		case 0: { std::vector<Point2d> v; for( int i=0;i<n;i++ ) { P a=scr(c.rng,s); v.push_back(M(a)); exPoint(s,a,S(i)); if( S(i).idx ) exText(s,std::to_string(i),a,S(i)); } inV(c,"v",rdv(v)); go(v,0); break; }
		case 1: { std::vector<Segment> v; for( int i=0;i<n;i++ ) { P a=scr(c.rng,s),b=scr(c.rng,s); if( ref::dist(a,b)<1 ) b=a+P{3,4}; inP(c,"a",a); inP(c,"b",b); Segment o(M(a),M(b)); v.push_back(o); exLine(s,a,b,S(i)); if( S(i).pts ) { auto q=o.getPts(); exPoint(s,rd(q.first),S(i)); exPoint(s,rd(q.second),S(i)); } if( S(i).idx ) exText(s,std::to_string(i),ref::mid(a,b),S(i)); } go(v,1); break; }
		case 2: { std::vector<Circle> v; for( int i=0;i<n;i++ ) { P a=scr(c.rng,s); LD R=c.rng.d(1,90); v.push_back(Circle(M(a),(NT)R)); Ex e; e.name="circle"; e.num={a.x,a.y,R}; e.st=S(i); s.ex.push_back(e); } go(v,2); break; }
		case 3: { std::vector<FRect> v; for( int i=0;i<n;i++ ) { P a=scr(c.rng,s),z{(LD)c.rng.i(1,99),(LD)c.rng.i(1,99)}; v.push_back(FRect(M(a),M(a+z))); Ex e; e.name="rect"; e.num={a.x,a.y,z.x,z.y}; e.st=S(i); s.ex.push_back(e); } go(v,3); break; }
		case 4: { P a=scr(c.rng,s),b=scr(c.rng,s); if( ref::dist(a,b)<1 ) b=a+P{3,4}; inP(c,"a",a); inP(c,"b",b); exPoint(s,a,st); exPoint(s,b,st); auto p=std::make_pair(M(a),M(b)); if( c.rng.coin() ) draw(im,p,dp); else im.draw(p,dp); break; }
		case 5: { P a=scr(c.rng,s),b=scr(c.rng,s); if( ref::dist(a,b)<1 ) b=a+P{3,4}; exLine(s,a,b,st); if( st.pts ) { auto q=Segment(M(a),M(b)).getPts(); exPoint(s,rd(q.first),st); exPoint(s,rd(q.second),st); } Ex e; e.name="circle"; e.num={a.x,a.y,7}; e.st=st; s.ex.push_back(e); draw(im,std::make_pair(Segment(M(a),M(b)),Circle(M(a),(NT)7)),dp); break; }
		default: { if( n<3 ) n=3; std::array<Point2d,3> v; for( int i=0;i<3;i++ ) { P a=scr(c.rng,s); v[i]=M(a); exPoint(s,a,st); if( st.idx ) exText(s,std::to_string(i),a,st); } draw(im,v,dp); break; }
	}
	c.cls("kind"+std::to_string(k)+(fn?"/per-index":"")); compare(c,s,im);
}
// parameters: refusals, and independence of the copies
SECTION(params,500)
{
	img::DrawParams::resetDefault(); img::DrawParams dp; int v=(int)c.rng.i(0,127)*2; c.in("even",v); c.throws("even-point-size",[&]{ dp.setPointSize((uint8_t)v); }); c.throws("font-size",[&]{ dp.setFontSize((int)c.rng.i(-9,1)); }); c.throws("point-style",[&]{ dp.setPointStyle((img::PtStyle)c.rng.i(6,200)); });
	Style def=libDefault(); DEF=&def; img::DrawParams a,b; Style sa=rndStyle(c,def,a); Style sb=rndStyle(c,sa,b=a); (void)sb; Scene s; Im im; for( auto* q: {&a,&b} ) { drawObject<NT>(c,s,q==&a?sa:sb,(int)c.rng.i(0,7),[&]( const auto& o ) { o.draw(im,*q); }); } { img::DrawParams d; exPoint(s,P{50,60},def); Point2d(50,60).draw(im,d); exPoint(s,P{70,60},def); Point2d(70,60).draw(im); } compare(c,s,im);
	c.throws("unwritable",[&]{ im.write("/nonexistent_dir/x.svg"); }); Im e; c.chk("empty-image",Xml(svg(e)).els.size()==2); CPolyline pl; OPolyline ol; pl.draw(e,a); ol.draw(e,a); c.chk("empty-polyline-leaves-no-trace",Xml(svg(e)).els.size()==2);
	auto col=img::genRandomColors((size_t)c.rng.i(0,20),20,40); for( auto& k:col ) c.chk("random-colors",k.r>=20&&k.r<=40&&k.g>=20&&k.g<=40&&k.b>=20&&k.b<=40); c.throws("random-colors-refused",[&]{ img::genRandomColors(3,50,50); });
}
MON_MAIN
