// C21: SVG import
#define HOMOG2D_USE_SVG_IMPORT
#define HOMOG2D_NOWARNINGS
#include "h2.hpp"
#include <dirent.h>
using namespace gen;
using ref::PI;
typedef CommonType_<double> CT;
// ---------------- what a document should give ----------------
struct Obj { Type t; std::vector<LD> num; Poly pts; LD tol=1e-9L; bool maybe=false; };
static std::string desc( const Obj& o ) { std::ostringstream s; s<<getString(o.t)<<" "; for( auto v:o.num ) s<<(double)v<<" "; for( auto& p:o.pts ) s<<"("<<(double)p.x<<","<<(double)p.y<<") "; return s.str(); }
static std::string descCT( const CT& c ) { std::ostringstream s; s<<getString(type(c))<<" "<<std::setprecision(12); std::visit( [&]( const auto& x ) { s<<x; }, static_cast<const std::variant<Segment_<double>,OSegment_<double>,Point2d_<double>,Line2d_<double>,Circle_<double>,Ellipse_<double>,FRect_<double>,CPolyline_<double>,OPolyline_<double>>&>(c) ); return s.str(); }
static bool nr( LD a, LD b, LD tol ) { return std::fabs(a-b)<=tol*(1+std::fabs(b)); }
// empty when the imported object is the expected one
static std::string match( const CT& g, const Obj& o )
{
	if( type(g)!=o.t ) return "type is "+std::string(getString(type(g)));
	auto pt=[&]( const auto& p, size_t k ) { return nr(p.getX(),o.num[k],o.tol)&&nr(p.getY(),o.num[k+1],o.tol); };
	auto poly=[&]( const auto& pl, bool closed ) -> std::string
	{
		const auto& v=pl.getPts(); size_t n=v.size(); if( n!=o.pts.size() ) return "number of points "+std::to_string(n)+" instead of "+std::to_string(o.pts.size());
		for( int dir=0; dir<2; dir++ ) for( size_t s=0; s<n; s++ )
		{
			if( !closed&&s!=(dir?n-1:0) ) continue; bool ok=true;
			for( size_t i=0;ok&&i<n;i++ ) { const auto& p=v[i]; const P& q=o.pts[dir?(s+2*n-i)%n:(s+i)%n]; ok=nr(p.getX(),q.x,o.tol)&&nr(p.getY(),q.y,o.tol); }
			if( ok ) return "";
		}
		return "points";
	};
	switch( o.t )
	{
		case Type::Circle: { const auto& x=std::get<Circle_<double>>(g); return pt(x.center(),0)&&nr(x.radius(),o.num[2],o.tol)?"":"circle"; }
		case Type::FRect: { const auto& x=std::get<FRect_<double>>(g); auto pp=x.getPts(); return pt(pp.first,0)&&pt(pp.second,2)?"":"rectangle"; }
		case Type::Segment: { const auto& x=std::get<Segment_<double>>(g); auto pp=x.getPts(); bool a=pt(pp.first,0)&&pt(pp.second,2), b=pt(pp.first,2)&&pt(pp.second,0); return a||b?"":"segment"; }
		case Type::CPolyline: return poly(std::get<CPolyline_<double>>(g),true);
		case Type::OPolyline: return poly(std::get<OPolyline_<double>>(g),false);
		case Type::Ellipse:
		{
			const auto& x=std::get<Ellipse_<double>>(g); LD et=std::max(o.tol,1e-6L); if( !nr(x.getCenter().getX(),o.num[0],et)||!nr(x.getCenter().getY(),o.num[1],et) ) return "ellipse center"; auto mm=x.getMajMin(); if( !nr(mm.first,std::max(o.num[2],o.num[3]),et)||!nr(mm.second,std::min(o.num[2],o.num[3]),et) ) return "ellipse axes";
			if( std::fabs(o.num[2]-o.num[3])>0.01L*o.num[2] ) { LD t=o.num[4]*PI/180+(o.num[2]<o.num[3]?PI/2:0); if( std::fabs(sinl((LD)x.angle()-t))>std::max(1e-5L,10*o.tol) ) return "ellipse angle "+str((double)(x.angle()*180/PI)); } return "";
		}
		default: return "unexpected type";
	}
}
// ---------------- text of a number, in all the forms SVG allows ----------------
static std::string numText( mon::Rng& r, double v )
{
	char b[64]; std::string s; switch( r.i(0,6) ) { case 0: snprintf(b,64,"%.17g",v); break; case 1: snprintf(b,64,"%.3f",v); break; case 2: snprintf(b,64,"%.9e",v); break; case 3: snprintf(b,64,"%.2f",v); break; case 4: snprintf(b,64,"%.0f",v); break; case 5: snprintf(b,64,"%.4E",v); break; default: snprintf(b,64,"%.6g",v); }
	s=b; if( r.coin(4) ) { if( s.compare(0,2,"0.")==0&&s.size()>2 ) s=s.substr(1); else if( s.compare(0,3,"-0.")==0&&s.size()>3 ) s="-"+s.substr(2); } if( r.coin(12)&&s[0]!='-' ) s="+"+s; return s;
}
static LD val( const std::string& s ) { return (LD)std::strtod(s.c_str(),nullptr); }
static std::string ws( mon::Rng& r ) { static const char* t[]={" ","  ","\n","\t"," \r\n ","   "}; return r.coin(3)?t[r.i(0,5)]:" "; }
static std::string sep( mon::Rng& r ) { switch( r.i(0,5) ) { case 0: return ","; case 1: return ", "; case 2: return " ,"; case 3: return ws(r)+","+ws(r); default: return ws(r); } }
// separation needed between two number tokens: may be left out before a sign, or a dot when the previous one already has one (or an exponent)
static std::string join( mon::Rng& r, const std::string& prev, const std::string& next )
{
	if( r.coin(3)&&!prev.empty()&&(next[0]=='-'||next[0]=='+') ) return ""; if( r.coin(3)&&next[0]=='.'&&prev.find_first_of(".eE")!=std::string::npos ) return ""; return sep(r);
}
// ---------------- path data: writer and reference interpretation ----------------
struct PathRef { std::vector<std::pair<Poly,bool>> sub; std::string text; };
static PathRef rndPath( mon::Case& c, int R )
{
	auto& r=c.rng; PathRef out; P cur{0,0}, start{0,0}; bool open=false; std::string prev; auto& t=out.text;
	auto command=[&]( char x ) { if( r.coin() ) t+=ws(r); t+=x; prev.clear(); if( r.coin() ) t+=ws(r); };
	auto number=[&]( LD v ) { std::string s=numText(r,(double)v); if( !prev.empty() ) t+=join(r,prev,s); t+=s; prev=s; return val(s); };
	auto add=[&]( P p ) { auto& w=out.sub.back().first; cur=p; if( w.empty()||ref::dist(w.back(),p)>0 ) w.push_back(p); };
	int ns=(int)r.i(1,4);
	for( int k=0;k<ns;k++ )
	{
		bool viaZ=!out.sub.empty()&&!open; bool explicitM=out.sub.empty()||!viaZ||!r.coin(5); bool rel=false; // after a 'z' a new subpath may start without 'M'
		out.sub.push_back({Poly(),false});
		if( explicitM ) { rel=r.coin(); command(rel?'m':'M'); LD x=number(rel?r.d(-R,R):r.d(-R,R)), y=number(r.d(-R,R)); P p=rel?cur+P{x,y}:P{x,y}; start=p; add(p); c.cls(rel?"m":"M"); } else { add(start); c.cls("no M after z"); }
		open=true; int n=gen::num(r,1,7); char last=explicitM?(rel?'m':'M'):0;
		for( int i=0;i<n;i++ )
		{
			static const char all[]="LlHhVv"; char x=all[r.i(0,5)]; bool implicit=false; if( last&&r.coin(3) ) { implicit=true; x=last=='M'?'L':last=='m'?'l':last; } if( !implicit ) command(x);
			bool rl=std::islower(x); P p=cur; bool dup=r.coin(15)&&rl; auto v=[&]{ return dup?(LD)0:(LD)r.d(-R,R); };
			switch( std::toupper(x) ) { case 'L': { LD a=number(v()), b=number(v()); p=rl?cur+P{a,b}:P{a,b}; break; } case 'H': { LD a=number(v()); p.x=rl?cur.x+a:a; break; } default: { LD a=number(v()); p.y=rl?cur.y+a:a; } }
			add(p); if( !implicit ) { last=x; c.cls(std::string(1,x)); } else c.cls("implicit"); if( dup ) c.cls("dup");
		}
		if( r.coin() ) { auto& w=out.sub.back(); if( r.coin(4) ) { // closing on the start point explicitly, then 'z'
				command('L'); LD a=start.x,b=start.y; char q[64]; auto w2=[&]( LD v2 ) { snprintf(q,64,"%.17g",(double)v2); std::string s=q; if( !prev.empty() ) t+=sep(r); t+=s; prev=s; }; w2(a); w2(b); add(P{a,b}); c.cls("explicit close"); }
			command(r.coin()?'z':'Z'); w.second=true; open=false; cur=start; c.cls("z"); }
	}
	if( r.coin(3) ) t+=ws(r); if( r.coin(4) ) t=ws(r)+t;
	return out;
}
// the objects a path gives; false when a subpath is too close to the library's point equality threshold for the answer to be certain
static bool pathObjs( const PathRef& pr, std::vector<Obj>& out )
{
	for( auto s: pr.sub )
	{
		Poly& w=s.first; for( size_t i=1;i<w.size();i++ ) if( ref::dist(w[i-1],w[i])<1e-6L ) return false; LD g=w.size()>1?ref::dist(w.front(),w.back()):0; if( w.size()>1&&g<1e-6L ) { if( !s.second ) return false; w.pop_back(); if( w.size()>1&&ref::dist(w.front(),w.back())<1e-6L ) return false; } if( w.size()<2 ) continue;
		Obj o; o.t=s.second?Type::CPolyline:Type::OPolyline; o.pts=w; o.tol=1e-9L; out.push_back(o);
	}
	return true;
}
static std::string attrs( mon::Rng& r, std::vector<std::pair<std::string,std::string>> a )
{
	static const char* deco[]={"stroke","fill","id","class","style","stroke-width"}; static const char* dv[]={"black","none","k1","a b","fill:none;stroke:#000","0.5px"}; for( int i=0;i<6;i++ ) if( r.coin(4) ) a.push_back({deco[i],dv[i]}); r.shuffle(a); std::string s; for( auto& p:a ) { char q=r.coin(4)?'\'':'"'; s+=(r.coin(5)?"\n  ":" ")+p.first+"="+q+p.second+q; } return s;
}
static std::string element( mon::Case& c, std::vector<Obj>& ex, bool& sure )
{
	auto& r=c.rng; int R=(int)r.pick(std::vector<int>{10,300,2000}); std::string name; std::vector<std::pair<std::string,std::string>> at; auto N=[&]( const char* n, LD v ) { std::string s=numText(r,(double)v); at.push_back({n,s}); return val(s); }; Obj o;
	switch( r.i(0,8) )
	{
		case 0: name="circle"; o.t=Type::Circle; o.num={N("cx",r.d(-R,R)),N("cy",r.d(-R,R)),N("r",r.d(1,R))}; break;
		case 1: { name="rect"; o.t=Type::FRect; LD x=N("x",r.d(-R,R)),y=N("y",r.d(-R,R)),w=N("width",r.d(1,R)),h=N("height",r.d(1,R)); o.num={x,y,x+w,y+h}; break; }
		case 2: { name="line"; o.t=Type::Segment; LD a=N("x1",r.d(-R,R)),b=N("y1",r.d(-R,R)),d=N("x2",r.d(-R,R)),e=N("y2",r.d(-R,R)); o.num={a,b,d,e}; if( std::hypot(a-d,b-e)<1e-3L ) sure=false; break; }
		case 3: case 4: { bool cl=r.coin(); name=cl?"polygon":"polyline"; o.t=cl?Type::CPolyline:Type::OPolyline; int n=gen::num(r,2,9); std::string s,prev; for( int i=0;i<n;i++ ) { std::string a=numText(r,r.d(-R,R)), b=numText(r,r.d(-R,R)); P p{val(a),val(b)}; if( r.coin(12)&&!o.pts.empty() ) { p=o.pts.back(); char q[64]; snprintf(q,64,"%.17g",(double)p.x); a=q; snprintf(q,64,"%.17g",(double)p.y); b=q; c.cls("dup"); } s+=(prev.empty()?"":join(r,prev,a))+a; s+=(r.coin()?",":join(r,a,b))+b; prev=b; if( o.pts.empty()||ref::dist(o.pts.back(),p)>0 ) o.pts.push_back(p); } if( r.coin(4) ) s+=ws(r); if( r.coin(4) ) s=ws(r)+s; at.push_back({"points",s});
			for( size_t i=1;i<o.pts.size();i++ ) if( ref::dist(o.pts[i-1],o.pts[i])<1e-6L ) sure=false; if( o.pts.size()>1&&ref::dist(o.pts.front(),o.pts.back())<1e-6L ) { if( !cl ) sure=false; else o.pts.pop_back(); } if( o.pts.size()<2 ) { c.cls("one point"); o.maybe=true; } break; }
		case 5: { name="ellipse"; o.t=Type::Ellipse; LD x=N("cx",r.d(-R,R)),y=N("cy",r.d(-R,R)),rx=r.d(1,50); LD a=N("rx",rx),b=N("ry",rx*r.d(0.2,4)); if( a<0.5L||b<0.5L ) sure=false; LD ang=0; if( !r.coin(3) ) { std::string s=numText(r,r.d(-180,180)); ang=val(s); char q[160]; LD px=x,py=y; if( r.coin() ) { px=(double)r.d(-R,R); py=r.coin(3)?0:(LD)(double)r.d(-R,R); c.cls("rotate-elsewhere"); } snprintf(q,160,"rotate(%s%s%.17g%s%.17g)",s.c_str(),r.coin()?",":", ",(double)px,r.coin()?",":", ",(double)py); at.push_back({"transform",q}); c.cls("rotate"); P nc=P{px,py}+ref::rot(P{x-px,y-py},ang*ref::PI/180); x=nc.x; y=nc.y; } o.num={x,y,a,b,ang}; o.tol=1e-5L; break; }
		default: { auto pr=rndPath(c,R); if( !pathObjs(pr,ex) ) sure=false; c.cls("path"); return "<path"+attrs(r,{{"d",pr.text}})+(r.coin()?"/>":"></path>"); }
	}
	c.cls(name); if( !o.maybe ) ex.push_back(o); return "<"+name+attrs(r,at)+(r.coin(3)?"></"+name+">":r.coin(4)?"><title>t</title></"+name+">":"/>");
}
static std::string rndDoc( mon::Case& c, std::vector<Obj>& ex, bool& sure, int& W, int& H )
{
	auto& r=c.rng; std::string d; if( r.coin() ) d+="<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; if( r.coin(4) ) d+="<!-- comment <circle cx='1' cy='1' r='1'/> -->\n"; W=(int)r.i(1,2000); H=(int)r.i(1,2000); d+="<svg xmlns=\"http://www.w3.org/2000/svg\" "; auto w="width=\""+std::to_string(W)+(r.coin(3)?"px":"")+"\"", h="height=\""+std::to_string(H)+"\""; d+=r.coin()?w+" "+h:h+" "+w; d+=">\n"; int depth=0; int n=(int)r.i(0,8);
	for( int i=0;i<n;i++ )
	{
		if( r.coin(5) ) { d+="<g id=\"g\">"; depth++; } if( depth&&r.coin(5) ) { d+="</g>"; depth--; } if( r.coin(5) ) { static const char* un[]={"<text x=\"1\" y=\"2\">circle</text>","<style>.a{fill:none}</style>","<title>rect</title>","<image x=\"0\" y=\"0\"/>","<Circle cx='1' cy='1' r='1'/>","<!-- <line x1='1' y1='1' x2='2' y2='2'/> -->","<metadata/>","<svg:circle cx='1' cy='1' r='1'/>"}; d+=un[r.i(0,7)]; c.cls("unsupported"); }
		d+=element(c,ex,sure); if( r.coin() ) d+="\n";
	}
	while( depth-- ) d+="</g>"; return d+"</svg>"+(r.coin()?"\n":"");
}
static void compare( mon::Case& c, const std::vector<CT>& got, const std::vector<Obj>& ex )
{
	auto all=[&]( std::ostream& o ) { o<<"got "<<got.size()<<" objects, expected "<<ex.size()<<": got "; for( auto& g:got ) o<<descCT(g)<<" ; "; o<<" EXPECTED "; for( auto& e:ex ) o<<desc(e)<<" ; "; };
	if( !c.chkf("count",got.size()==ex.size(),all) ) return;
	for( size_t i=0;i<ex.size();i++ ) { std::string m=match(got[i],ex[i]); if( !c.chkf(std::string("object-")+getString(ex[i].t),m.empty(),[&]( std::ostream& o ) { o<<"object "<<i<<": "<<m<<"; got "<<descCT(got[i])<<" expected "<<desc(ex[i]); }) ) return; }
}
SECTION(document,6000)
{
	std::vector<Obj> ex; bool sure=true; int W,H; std::string d=rndDoc(c,ex,sure,W,H); c.put(d); if( !sure ) { c.skip("too close to the equality threshold"); return; }
	tinyxml2::XMLDocument doc; if( c.rng.coin(10) ) { std::string fn=std::string(getenv("VERIF_SCRATCH")?getenv("VERIF_SCRATCH"):"/tmp")+"/c21_"+std::to_string(getpid())+".svg"; { std::ofstream f(fn); f<<d; } doc.LoadFile(fn.c_str()); remove(fn.c_str()); } else doc.Parse(d.c_str(),d.size());
	if( !c.chk("harness-document-parses",doc.Error()==false) ) return; svg::Visitor v; if( !c.quiet("imports",[&]{ doc.Accept(&v); }) ) return; compare(c,v.get(),ex);
	c.quiet("size",[&]{ auto s=svg::getImgSize(doc); c.eq("width",s.first,(double)W); c.eq("height",s.second,(double)H); });
	if( c.rng.coin(4) ) { svg::Visitor v2; doc.Accept(&v2); compare(c,v2.get(),ex); std::vector<Obj> e2=ex; std::vector<Obj> e1; bool s2=true; int w2,h2; std::string d2=rndDoc(c,e1,s2,w2,h2); c.put(" || "+d2); if( s2 ) { tinyxml2::XMLDocument doc2; doc2.Parse(d2.c_str()); if( c.quiet("imports-second-document",[&]{ doc2.Accept(&v2); }) ) { e2.insert(e2.end(),e1.begin(),e1.end()); compare(c,v2.get(),e2); } } }
}
SECTION(path,12000)
{
	auto pr=rndPath(c,(int)c.rng.pick(std::vector<int>{5,100,1000})); c.put(pr.text); std::vector<Obj> ex; if( !pathObjs(pr,ex) ) { c.skip("too close to the equality threshold"); return; }
	std::string d="<svg><path d=\""+pr.text+"\"/></svg>"; tinyxml2::XMLDocument doc; doc.Parse(d.c_str()); svg::Visitor v; if( c.quiet("imports",[&]{ doc.Accept(&v); }) ) compare(c,v.get(),ex);
}
// curves are not supported: the path is left out, the others are imported
SECTION(unsupported,1500)
{
	auto& r=c.rng; auto pr=rndPath(c,100); std::string a="<circle cx=\"1\" cy=\"2\" r=\"3\"/>", b="<rect x=\"1\" y=\"2\" width=\"3\" height=\"4\"/>"; static const char* bad[]={"C 1 2 3 4 5 6","c1,2,3,4,5,6","S 1 2 3 4","s 1 2 3 4","Q 1 2 3 4","q1 2 3 4","T 5 6","t 5 6","A 5 5 0 0 1 9 9","a5 5 0 0 1 9 9","X 1 2","L 3","H","# 5","z 5 6","M","V 1 2 k"}; int k=(int)r.i(0,16); std::string t=pr.text; t+=std::string(" ")+bad[k]; c.put(t); c.cls(bad[k]); Obj oc; oc.t=Type::Circle; oc.num={1,2,3}; Obj orr; orr.t=Type::FRect; orr.num={1,2,4,6}; std::string d="<svg>"+a+"<path d=\""+t+"\"/>"+b+"</svg>"; tinyxml2::XMLDocument doc; doc.Parse(d.c_str()); svg::Visitor v; if( !c.quiet("does-not-stop-the-import",[&]{ doc.Accept(&v); }) ) return; auto& g=v.get(); c.chk("others-imported",g.size()>=2&&match(g.front(),oc).empty()&&match(g.back(),orr).empty()); if( k<10 ) c.chkf("whole-path-skipped",g.size()==2,[&]( std::ostream& o ) { o<<g.size()<<" objects"; });
}
// drawings of the library read back as the same objects
template<typename F> void roundtrip( mon::Case& c )
{
	auto& r=c.rng; img::Image<img::SvgImage> im((size_t)500,(size_t)400); std::vector<Obj> ex; std::vector<CommonType_<F>> objs; int n=(int)r.i(0,8); auto q=[&]{ return P{(LD)(F)std::round(r.d(-100,600)*100)/100,(LD)(F)std::round(r.d(-100,600)*100)/100}; }; auto M=[]( P p ) { return Point2d_<F>((F)p.x,(F)p.y); }; bool nine=false; img::DrawParams dp; if( r.coin() ) dp.setColor(1,2,3); if( r.coin(3) ) dp.setAttrString("class=\"k\" stroke-dasharray=\"4\"");
	for( int i=0;i<n;i++ )
	{
		Obj o; o.tol=1.2e-5L; P a=q(), b=q(); while( std::fabs(a.x-b.x)<1||std::fabs(a.y-b.y)<1 ) b=q(); int k=(int)r.i(0,5); bool group=r.coin(10);
		auto put=[&]( const auto& x ) { c.put(str(x)+"; "); if( r.coin() ) x.draw(im,dp); else draw(im,x); objs.emplace_back(x); ex.push_back(o); if( group ) im.getReal()._svgString<<"<!-- x -->\n"; };
		switch( k )
		{
			case 0: { LD R=(LD)(F)r.d(1,200); o.t=Type::Circle; o.num={a.x,a.y,R}; put(Circle_<F>(M(a),(F)R)); break; }
			case 1: o.t=Type::FRect; o.num={std::min(a.x,b.x),std::min(a.y,b.y),std::max(a.x,b.x),std::max(a.y,b.y)}; o.tol*=2; put(FRect_<F>(M(a),M(b))); break;
			case 2: o.t=Type::Segment; o.num={a.x,a.y,b.x,b.y}; put(Segment_<F>(M(a),M(b))); break;
			case 3: case 4: { bool cl=k==3; int m=(int)r.i(2,12); std::vector<Point2d_<F>> v; while( (int)v.size()<m ) { P p=q(); bool far=true; for( auto& w:o.pts ) far=far&&ref::dist(w,p)>0.5L; if( far ) { v.push_back(M(p)); o.pts.push_back(p); } } o.t=cl?Type::CPolyline:Type::OPolyline; if( cl ) put(CPolyline_<F>(v)); else put(OPolyline_<F>(v)); break; }
			default: { a=P{(LD)(F)r.d(-50,100),(LD)(F)r.d(-50,100)}; LD A=(LD)(F)r.d(20,150),B=(LD)(F)(A*r.d(0.3,0.9)),t=(LD)r.d(-3,3); o.t=Type::Ellipse; o.num={a.x,a.y,A,B,(LD)(double)t*180/PI}; o.tol=1e-4L; auto e=Ellipse_<F>((F)a.x,(F)a.y,(F)A,(F)B,(F)t); put(e); if( sizeof(F)==4 ) ex.back().tol=5e-3L; }
		}
	}
	(void)nine; std::string text; if( r.coin(8) ) { std::string fn=std::string(getenv("VERIF_SCRATCH")?getenv("VERIF_SCRATCH"):"/tmp")+"/c21r_"+std::to_string(getpid())+".svg"; im.write(fn); std::ifstream f(fn); std::stringstream b; b<<f.rdbuf(); text=b.str(); f.close(); remove(fn.c_str()); } else { std::ostringstream o; o<<im; text=o.str(); }
	tinyxml2::XMLDocument doc; doc.Parse(text.c_str()); if( !c.chk("written-file-parses",!doc.Error()) ) return; svg::Visitor v; if( !c.quiet("imports-its-own-files",[&]{ doc.Accept(&v); }) ) return; compare(c,v.get(),ex); c.quiet("size",[&]{ auto s=svg::getImgSize(doc); c.chk("size-value",s.first==500&&s.second==400); });
	// drawing what has been read gives the same drawing again (up to the printed digits, so from the second generation on exactly)
	if( v.get().size()==ex.size() ) { auto gen2=[&]( const std::vector<CT>& vv ) { img::Image<img::SvgImage> i2((size_t)500,(size_t)400); draw(i2,vv); std::ostringstream o; o<<i2; return o.str(); }; std::string t2=gen2(v.get()); tinyxml2::XMLDocument d2; d2.Parse(t2.c_str()); svg::Visitor v2; d2.Accept(&v2); auto e2=ex; for( auto& e: e2 ) e.tol*=2; compare(c,v2.get(),e2); }
}
SECTION(written_by_the_library,2500) { if( c.rng.coin(4) ) roundtrip<float>(c); else roundtrip<double>(c); }
// ---------------- hostile input: only a std::exception may come out ----------------
template<typename FN> void hostile( mon::Case& c, const char* what, FN f )
{
	bool ok=false; std::string k; try { f(); ok=true; k="accepted"; } catch( const std::exception& e ) { ok=true; k="refused"; } catch( const std::string& s ) { k="std::string: "+s; } catch( const char* s ) { k=std::string("const char*: ")+s; } catch( ... ) { k="unknown"; }
	if( ok ) c.cls(std::string(what)+" "+k); c.chkf(std::string("only-std-exceptions-")+what,ok,[&]( std::ostream& o ) { o<<k; });
}
static void feed( mon::Case& c, const std::string& d )
{
	c.put(d); tinyxml2::XMLDocument doc; doc.Parse(d.c_str(),d.size()); if( doc.Error() ) c.cls("not XML"); svg::Visitor v; hostile(c,"import",[&]{ doc.Accept(&v); }); for( auto& o: v.get() ) { auto t=type(o); c.chk("object-type",t==Type::Circle||t==Type::FRect||t==Type::Segment||t==Type::CPolyline||t==Type::OPolyline||t==Type::Ellipse); if( t==Type::CPolyline ) c.chk("polyline-has-points",std::get<CPolyline_<double>>(o).size()>=2); if( t==Type::OPolyline ) c.chk("polyline-has-points",std::get<OPolyline_<double>>(o).size()>=2); }
	hostile(c,"size",[&]{ svg::getImgSize(doc); }); std::ostringstream sink; auto* old=std::cout.rdbuf(sink.rdbuf()); hostile(c,"attributes",[&]{ svg::printFileAttrib(doc); }); std::cout.rdbuf(old);
}
static std::string junkValue( mon::Rng& r )
{
	static const char* t[]={"","0","-1","1e400","-1e400","1e-400","nan","inf","-inf","abc","10px","10%","0x1F","1,2","1 2","1,2 3","1,,2","1,2,3,4","--5","5-","-","+",".","e","1e","1e+","-.","..","1..2"," ","  ","\n",",",", ,","10,20 10,20","10,20","0,0 1,1 0,0","0,0 0,0 0,0","rotate","rotate(","rotate()","rotate(1)","rotate(1,2)","rotate(a,b,c)","rotate(1,2,3","rotate(1,2,3))","rotate(,,)","rotate(1e999,2,3)","(","()","((","scale(2)","translate(1,2)","rotate(10,1e300,1)","M","m","Z","z","M Z","MZ","M 1 Z","M1 2 Z 3","Z 1 2","z1","zz","M1 2 z z z","M1 2 L","M1 2 3","L","H","V 1","h1v1","M1e999 2","M 1 1 L 1 1 1 1 Z","M1 1 1 1z","M0 0 1 1 0 0","M0 0 1 0 1 1 0 0 z m5 5","M 1 2 C 3 4","\x01","\xc3\xa9","&#0;","&amp;","M1,2,3,4,","M,1,2","99999999999999999999","1e308","-1e308 1e308","M1e308 1e308 l 1e308 1e308","M0 0 L1e-11 0","0.0000000001,0 0,0"}; int n=sizeof(t)/sizeof(t[0]); if( r.coin(4) ) { std::string s; int m=(int)r.i(1,12); static const char al[]="MmLlHhVvZzCcAa0123456789.-+eE, \n()x"; for( int i=0;i<m;i++ ) s+=al[r.i(0,(int)sizeof(al)-2)]; return s; } std::string s=t[r.i(0,n-1)]; if( r.coin(4) ) s+=std::string(r.coin()?" ":"")+t[r.i(0,n-1)]; return s;
}
SECTION(hostile_attributes,12000)
{
	auto& r=c.rng; static const char* names[]={"circle","rect","line","polygon","polyline","ellipse","path","svg","g"}; static const std::vector<std::vector<const char*>> at={{"cx","cy","r"},{"x","y","width","height"},{"x1","y1","x2","y2"},{"points"},{"points"},{"cx","cy","rx","ry","transform"},{"d"},{"width","height"},{"x"}}; std::string d="<svg "; if( r.coin() ) d+="width=\""+junkValue(r)+"\" height=\""+junkValue(r)+"\""; d+=">"; int n=(int)r.i(1,3);
	for( int i=0;i<n;i++ ) { int k=(int)r.i(0,8); c.cls(names[k]); d+=std::string("<")+names[k]; for( auto a: at[k] ) if( !r.coin(8) ) { std::string v=r.coin(at[k].size()>1?2:6)?std::to_string(r.i(1,50)):junkValue(r); if( !std::strcmp(a,"transform")&&r.coin() ) v="rotate(30,"+std::to_string(r.i(1,50))+","+std::to_string(r.i(1,50))+")"; std::string e; for( char x: v ) if( x=='"'||x=='<' ) e+='_'; else e+=x; d+=std::string(" ")+a+"=\""+e+"\""; } d+="/>"; }
	feed(c,d+"</svg>");
}
SECTION(hostile_bytes,6000)
{
	auto& r=c.rng; std::vector<Obj> ex; bool sure=true; int W,H; std::string d=rndDoc(c,ex,sure,W,H); int n=(int)r.i(1,8); for( int i=0;i<n&&!d.empty();i++ ) { size_t p=(size_t)r.i(0,(long)d.size()-1); switch( r.i(0,6) ) { case 0: d[p]=(char)r.i(0,255); break; case 1: d.erase(p,(size_t)r.i(1,6)); break; case 2: d.insert(p,1,(char)r.i(1,255)); break; case 3: d.insert(p,junkValue(r)); break; case 4: d=d.substr(0,p); break; case 5: { size_t q=(size_t)r.i(0,(long)d.size()-1); std::swap(d[p],d[q]); break; } default: { static const char al[]="MmLlHhVvZz0123456789.-+eE, \"<>/"; d[p]=al[r.i(0,(int)sizeof(al)-2)]; } } } feed(c,d);
}
SECTION(hostile_directed,1)
{
	for( std::string d: {"","<","<svg","<svg/>","<svg></svg>","<circle/>","<!-- -->","<?xml version='1.0'?>","<svg><path/></svg>","<svg><polygon/></svg>","<svg><path d=''/></svg>","<svg><path d=' '/></svg>","<svg><path d='Z 5'/></svg>","<svg><path d='zzz'/></svg>","<svg><polygon points=''/></svg>","<svg><polyline points='1,1'/></svg>","<svg><polyline points='1,1 1,1 1,1'/></svg>","<svg><polygon points='1,1 2,2'/></svg>","<svg><ellipse cx='1' cy='1' rx='0' ry='0'/></svg>","<svg><ellipse cx='1' cy='1' rx='nan' ry='2'/></svg>","<svg><rect x='1' y='1' width='0' height='0'/></svg>","<svg><line x1='1' y1='1' x2='1' y2='1'/></svg>","<svg><path d='M0 0 L0 0 L0 0 z'/></svg>","<svg width='abc' height='1'/>","<svg width='' height=''/>"} ) { c.desc.clear(); feed(c,d); }
	std::string deep="<svg>"; for( int i=0;i<600;i++ ) deep+="<g>"; feed(c,deep); std::string lng="<svg><path d=\"M0 0"; for( int i=0;i<20000;i++ ) lng+=" l1-1"; lng+="z\"/></svg>"; { tinyxml2::XMLDocument doc; doc.Parse(lng.c_str()); svg::Visitor v; doc.Accept(&v); c.chk("long-path",v.get().size()==1&&std::get<CPolyline_<double>>(v.get()[0]).size()==20001); }
}
// ---------------- real files of the repository ----------------
static std::string slurp( const std::string& f ) { std::ifstream i(f); std::stringstream b; b<<i.rdbuf(); return b.str(); }
static PathRef readPath( const std::string& t ) // independent reader: strtod based
{
	PathRef o; P cur{0,0},start{0,0}; char cmd=0; const char* p=t.c_str(); bool open=false; auto skip=[&]{ while( *p&&std::strchr(" ,\n\t\r\f",*p) ) p++; }; auto num=[&]{ skip(); char* e; LD v=(LD)std::strtod(p,&e); if( e==p ) throw std::runtime_error("number"); p=e; return v; };
	for( skip(); *p; skip() ) { if( std::isalpha((unsigned char)*p) ) cmd=*p++; else if( cmd=='m' ) cmd='l'; else if( cmd=='M' ) cmd='L'; bool rel=std::islower(cmd); char C=(char)std::toupper(cmd); if( C=='Z' ) { o.sub.back().second=true; open=false; cur=start; continue; } if( !std::strchr("MLHV",C) ) throw std::runtime_error("unsupported"); P q=cur; if( C=='M'||C=='L' ) { LD a=num(),b=num(); q=rel?cur+P{a,b}:P{a,b}; } else if( C=='H' ) { LD a=num(); q.x=rel?cur.x+a:a; } else { LD a=num(); q.y=rel?cur.y+a:a; } if( C=='M' ) { o.sub.push_back({Poly(),false}); start=q; open=true; } else if( !open ) { o.sub.push_back({Poly{start},false}); open=true; } auto& w=o.sub.back().first; if( w.empty()||ref::dist(w.back(),q)>1e-10L ) w.push_back(q); cur=q; }
	return o;
}
SECTION(repository_files,1)
{
	std::vector<std::string> files; for( std::string dir: {"/repo/docs/img/","/repo/misc/test_files/","/repo/misc/other/"} ) if( DIR* d=opendir(dir.c_str()) ) { while( auto e=readdir(d) ) { std::string n=e->d_name; if( n.size()>4&&n.substr(n.size()-4)==".svg" ) files.push_back(dir+n); } closedir(d); } std::sort(files.begin(),files.end());
	for( auto& f: files )
	{
		c.desc="file="+f+"; "; tinyxml2::XMLDocument doc; if( doc.LoadFile(f.c_str())!=tinyxml2::XML_SUCCESS ) { c.cls("file not XML"); continue; } svg::Visitor v; if( !c.quiet("imports",[&]{ doc.Accept(&v); }) ) continue; c.cls("file");
		std::vector<Obj> ex; bool sure=true; struct W2: tinyxml2::XMLVisitor { std::vector<Obj>& ex; bool& sure; W2( std::vector<Obj>& e, bool& s ): ex(e),sure(s) {} bool VisitExit( const tinyxml2::XMLElement& e ) override { std::string n=e.Name(); auto A=[&]( const char* k ) { auto q=e.Attribute(k); return q?(LD)std::strtod(q,nullptr):(LD)0; }; Obj o; if( n=="circle" ) { o.t=Type::Circle; o.num={A("cx"),A("cy"),A("r")}; } else if( n=="rect" ) { o.t=Type::FRect; o.num={A("x"),A("y"),A("x")+A("width"),A("y")+A("height")}; } else if( n=="line" ) { o.t=Type::Segment; o.num={A("x1"),A("y1"),A("x2"),A("y2")}; } else if( n=="polygon"||n=="polyline" ) { o.t=n=="polygon"?Type::CPolyline:Type::OPolyline; std::istringstream s(e.Attribute("points")); std::string t; while( s>>t ) { double x=0,y=0; sscanf(t.c_str(),"%lf,%lf",&x,&y); o.pts.push_back(P{(LD)x,(LD)y}); } } else if( n=="ellipse" ) { o.t=Type::Ellipse; double a=0,b=0,c2=0; if( auto q=e.Attribute("transform") ) sscanf(q,"rotate(%lf,%lf,%lf)",&a,&b,&c2); o.num={A("cx"),A("cy"),A("rx"),A("ry"),(LD)a}; o.tol=1e-5L; } else if( n=="path" ) { try { if( !pathObjs(readPath(e.Attribute("d")),ex) ) sure=false; } catch( std::exception& ) {} return true; } else return true; ex.push_back(o); return true; } } w(ex,sure); doc.Accept(&w); if( !sure ) { c.cls("file left out: threshold"); continue; } compare(c,v.get(),ex);
	}
}
MON_MAIN
